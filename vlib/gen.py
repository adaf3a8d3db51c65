""" Generators: file names, contents, trees """
COMPONENTS = ['a', 'b', 'c', 'dir', 'file.txt', 'File.TXT', 'image.raw', ' lead', 'trail ', ' ', 'two words', '  ', 'ünïcödé', '日本語',
              'e\u0301', 'a:b', "it's", 'say"hi"', 'p%20c', '100%', 'back\\slash', 'star*', 'br[ack]et', 'q?', 'semi;colon', 'hash#1',
              '-dash', '.hidden', 'tab\tname', 'x' * 120, '{}', '$HOME', 'a=b&c', '~', 'head', 'index', 'files', 'tmp_file', '@', '+', ',',
              'Path:  x', '------------', 'Resolution: server', 'bvn', '.bvnx', '.bvn_other', '\u2028', '\U0001F600', 'null', '0', 'con.',
              '...', '..a', 'a..', '. ', ' .']
PLAIN = ['a', 'b', 'c', 'd', 'dir', 'file.txt', 'image.raw', 'two words', 'ünïcödé', 'data']

def name(rng, plain = False, extra = ()):
    pool = PLAIN if plain else COMPONENTS
    if extra and rng.random() < 0.3: return rng.choice(list(extra))
    c = rng.choice(pool)
    r = rng.random()
    if r < 0.35: c = c + str(rng.randrange(30))
    elif r < 0.5: c = str(rng.randrange(30)) + c
    return c

def path(rng, plain = False, depth = 3, extra = ()):
    n = rng.choice([1, 1, 2, 2, 3, depth])
    return '/' + '/'.join(name(rng, plain, extra) for _ in range(n))

def compatible(p, others):
    """ p can live in one tree with the others (no file is also a directory) and is not private """
    if p.split('/')[1] in ('.bvn', '.bvn_pull_ignore', '.shttpfs', '.shttpfs_pull_ignore', '.shttpfs_ignore', '.bvn_ignore'): return False
    for o in others:
        if o == p: continue
        if o.startswith(p + '/') or p.startswith(o + '/'): return False
    return True

def similar(rng, p):
    """ a name that is easily taken for p, by pattern matching or by ignoring letter case """
    i = rng.randrange(1, len(p))
    k = rng.choice(['_', '%', '?', '*', 'case', 'case', 'longer'])
    if k == 'case': return p.swapcase()
    if k == 'longer': return p + rng.choice(['_', ' ', '.', '0'])
    return p if p[i] == '/' else p[:i] + k + p[i + 1:]

def paths(rng, n, plain = False, extra = ()):
    out = []
    while len(out) < n:
        if out and rng.random() < 0.12: p = similar(rng, rng.choice(out))
        else: p = path(rng, plain, extra = extra)
        if p not in out and compatible(p, out): out.append(p)
    return out

_counter = [0]
def unique(rng, tag = ''):
    """ content that occurs nowhere else """
    _counter[0] += 1
    return ('%s#%d#%x' % (tag, _counter[0], rng.getrandbits(64))).encode()

SIZES = [0, 1, 2, 100, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 999999, 1000000, 1000001, 2000000, 2500000]
def content(rng, big = 0.04, dup = 0.15, empty = 0.06):
    r = rng.random()
    if r < empty: return b''
    if r < empty + dup: return b'shared-%d' % rng.randrange(3)
    if r < empty + dup + big: 
        n = rng.choice(SIZES)
        u = unique(rng)
        return (u * (n // len(u) + 1))[:n] if n else b''
    if r < empty + dup + big + 0.1: return bytes(rng.getrandbits(8) for _ in range(rng.choice([7, 64, 300]))) + unique(rng)
    if r < empty + dup + big + 0.15: return b'\r\n\r\n' + unique(rng) + b'\r\n\r\n{"status":"ok"}'
    return unique(rng, 'c') + b'x' * rng.randrange(200)
