""" the peak memory of client, server and repository manager while they handle files much larger than what they may take, read from the system, and a comparison of what arrives """
import os, hashlib, threading, struct
from vlib import core
from vlib.wire import WireError
from vlib.s3 import S3, NoSuchKey
from vlib.world import World, WC, run_repo, b64

LEVEL = 'exploration'
RULE = ('files of 48 to 80 MB (some of them compressible, some with the same content, one at the limits of the pieces in which they are transferred) are committed, found again by a resumed commit, updated, offered for comparison, reverted, checked out, pulled by several connections at once, sent where they are refused, verified, left by gc, backed up and restored by real processes; '
        'the peak of the resident memory of each process may exceed what it had at the beginning by at most 24 MB, and every file has to arrive as it was. An evaluation is one process handling one or more large files; distinct by command, size and kind of file')
ASSUMPTIONS = ['the resident memory the system reports is what a process takes', 'lists of files and revisions are not meant, they are handled as a whole']
REQUIRED = ['client_peaks', 'server_peaks', 'manager_peaks', 'bytes_committed', 'bytes_pulled', 'resumed', 'backed_up', 'restored', 'at_once']
QUICK_WALL = 24
THOROUGH_WALL = 500
CASE_TIMEOUT = 300
NEEDS_REPO_MANAGER = True
LIMIT = 24 << 10 # KB

def plan(tier): return 12 if tier == 'quick' else 200

def field(pid, name):
    with open('/proc/%s/status' % pid) as f:
        for l in f:
            if l.startswith(name + ':'): return int(l.split()[1])
    raise core.Inconclusive('no ' + name)

class Lean(S3):
    """ keeps large objects out of the memory of the process which uses it """
    def all(self):
        out = {}
        for n in os.listdir(self.path + '/objects'):
            if n.endswith('.key'): out[open(self.path + '/objects/' + n).read()] = b''
        return out
    def put(self, key, data, version = 'harness'):
        with open(self._file(key), 'wb') as f:
            for d in data if not isinstance(data, (bytes, bytearray)) else [data]: f.write(d)
        with open(self._file(key) + '.key', 'w') as f: f.write(key)
    def get_object(self, **kw):
        def effect():
            try: f = open(self._file(kw['Key']), 'rb')
            except FileNotFoundError: raise NoSuchKey(kw['Key']) from None
            return {'VersionId' : 'v', 'Body' : f, 'ContentLength' : os.fstat(f.fileno()).st_size, 'ContentType' : 'binary/octet-stream', 'Metadata' : {}, 'LastModified' : None}
        return self._call('get_object', kw, effect)
    def complete_multipart_upload(self, **kw):
        def effect():
            d = self._upload(kw)
            def pieces():
                for p in kw['MultipartUpload']['Parts']:
                    with open(d + '/%05d' % p['PartNumber'], 'rb') as f: yield f.read()
            self.put(kw['Key'], pieces(), 'v'); self._forget(d)
            return {'VersionId' : 'v'}
        return self._call('complete_multipart_upload', kw, effect)

def make(path, seed, size):
    """ (hash of) a file of this size """
    h = hashlib.sha256()
    block = (hashlib.sha256(seed).digest() * 40000)[:1 << 20] if seed[:1] != b'z' else bytes(1 << 20)
    with open(path, 'wb') as f:
        n = 0
        while n < size:
            d = (struct.pack('>Q', n) + seed + block)[:min(len(block), size - n)]
            f.write(d); h.update(d); n += len(d)
    return h.hexdigest()

def hash_of(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        while True:
            d = f.read(1 << 20)
            if not d: return h.hexdigest()
            h.update(d)

def measured(ctx, log):
    """ before= for a child whose peak is to be known """
    def before():
        start = field('self', 'VmRSS')
        def end():
            with open(log, 'w') as f: f.write('%d %d' % (start, field('self', 'VmHWM')))
        core.exits.append((end, (), {}))
    return before

def case(ctx):
    rng = ctx.rng
    world = World(ctx)
    size = rng.randrange(48 << 20, 80 << 20)
    if rng.random() < 0.3: size = (size // 1000000) * 1000000 + rng.choice([-1, 0, 1])
    kind = rng.choice([b'z', b'r', b'r'])
    log = os.path.join(ctx.dir, 'peak')
    a, b = world.new_wc('a', 'ann'), world.new_wc('b', 'bob')
    pid = world.server.pid; start = field(pid, 'VmRSS')
    want = {}

    def cli(wc, *args, **kw):
        if os.path.exists(log): os.remove(log)
        r = world.cli(wc, *args, before = measured(ctx, log), timeout = 200, **kw)
        peak('client', args[0], log)
        server(args[0])
        return r

    def peak(who, what, log):
        if not os.path.exists(log): return
        s, p = [int(x) for x in open(log).read().split()]
        ctx.count(who + '_peaks')
        ctx.check(p - s <= LIMIT, '%s: the %s takes memory for files as a whole' % (what, who), ('%d KB more than at the beginning' % (p - s), 'files of %d KB' % (size >> 10)))
        ctx.evaluated((who, what, size >> 20, kind)); most[who] = max(most.get(who, 0), p - s)

    def server(what):
        p = field(pid, 'VmHWM'); ctx.count('server_peaks')
        ctx.check(p - start <= LIMIT, '%s: the server takes memory for files as a whole' % what, ('%d KB more than at the beginning' % (p - start), 'files of %d KB' % (size >> 10)))
        ctx.evaluated(('server', what, size >> 20, kind)); most['server'] = max(most.get('server', 0), p - start)

    def arrived(wc, what):
        for n, h in want.items(): ctx.check(os.path.exists(wc.full(n)) and hash_of(wc.full(n)) == h, what + ': a large file is not what it has to be', n)

    def give(wc, name, seed):
        h = make(wc.full(name), seed, size); t = world.times.next(); os.utime(wc.full(name), (t, t)); want[name] = h

    most = {}
    # -------------------------------- a commit, interrupted after the first file or not
    give(a, '/large', kind + b'1')
    if rng.random() < 0.6:
        give(a, '/second', rng.choice([kind + b'1', kind + b'2']))
        world.server.rules([{'action' : 'push_file', 'nth' : 1, 'do' : 'drop'}])
        r = cli(a, 'commit', '-m', 'm'); world.server.rules([])
        if not r.ok: ctx.count('resumed'); world.wait_unlocked()
    r = cli(a, 'commit', '-m', 'm'); ctx.check(r.ok, 'a commit of large files fails: %r' % r, r.extra.get('tb'))
    ctx.count('bytes_committed', size * len(want))
    # -------------------------------- an update
    r = cli(b, 'update'); ctx.check(r.ok, 'an update with large files fails: %r' % r, r.extra.get('tb'))
    arrived(b, 'update'); ctx.count('bytes_pulled', size * len(want))
    first = world.wire().get_head()
    k = rng.randrange(4)
    if k == 0: # versions for comparison, and a decision
        b.write('/large', b'mine')
        give(a, '/large', kind + b'3'); r = cli(a, 'commit', '-m', 'n'); ctx.check(r.ok, 'a commit of large files fails: %r' % r, r.extra.get('tb'))
        r = cli(b, 'update', answers = ['manual', 'y']); ctx.check(not r.ok, 'harness: no conflict', r)
        f = b.path + '/.bvn/conflict_files/large'
        ctx.check(os.path.exists(f) and hash_of(f) == want['/large'], 'the version for comparison is not that of the server')
        text = open(b.path + '/.bvn/conflict_resolution').read()
        with open(b.path + '/.bvn/conflict_resolution', 'w') as h: h.write(text.replace('Resolution: ', 'Resolution: server'))
        r = cli(b, 'update'); ctx.check(r.ok, 'an update with large files fails: %r' % r, r.extra.get('tb')); arrived(b, 'update')
    elif k == 1: # changed and reverted
        b.write('/large', b'mine')
        r = cli(b, 'revert', '--all', answers = ['yes']); ctx.check(r.ok, 'a revert of large files fails: %r' % r, r.extra.get('tb')); arrived(b, 'revert')
    elif k == 2: # another revision
        old = want['/large']
        give(a, '/large', kind + b'3'); r = cli(a, 'commit', '-m', 'n'); ctx.check(r.ok, 'a commit of large files fails: %r' % r, r.extra.get('tb'))
        want['/large'] = old
        r = cli(a, 'revert', '--v', first, 'large', answers = ['yes']); ctx.check(r.ok, 'a revert of large files fails: %r' % r, r.extra.get('tb')); arrived(a, 'revert to another revision')
        r = cli(a, 'status'); ctx.check(r.ok and 'changed : /large' in r.out, 'status is wrong', r.out)
    else:
        d = os.path.join(ctx.dir, 'checkouts'); os.makedirs(d)
        r = cli(d, 'checkout', 'http://%s:%d/repo' % world.server.addr, answers = ['ann', b64(b'n' + world.keys['ann'][1])])
        ctx.check(r.ok, 'a checkout with large files fails: %r' % r, r.extra.get('tb')); arrived(WC(d + '/repo', world.times), 'checkout')
    # -------------------------------- several at once, which take what they get slowly
    n = 4; bad = []
    def one():
        w = world.wire()
        try:
            hd = {'session_token' : w.session, 'repository' : 'repo', 'path' : '/large', 'use_head' : '0', 'version_id' : first}
            t = 'POST /pull_file HTTP/1.1\r\n' + ''.join('%s: %s\r\n' % x for x in hd.items()) + 'Content-length: 2\r\n\r\n'
            w.s.sendall(t.encode() + b'{}')
            got = 0
            while True:
                d = w.s.recv(1 << 16)
                if not d: break
                got += len(d)
                if got > size: break
            if got < size: bad.append(got)
        finally: w.close()
    ts = [threading.Thread(target = one) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    ctx.check(not bad, 'a pull of a large file ends early', bad)
    ctx.count('at_once'); server('pulls at once')
    # -------------------------------- uploads nobody wants: without a session, without a commit, with a path that is none
    for why in rng.sample(['session', 'commit', 'path', 'action'], 2):
        w = world.wire()
        if why == 'path':
            h, _ = w.begin(w.get_head()); ctx.check(h['status'] == 'ok', 'begin is refused', h)
        hd = w.base(path = '/../x' if why == 'path' else '/unwanted')
        if why == 'session': hd['session_token'] = 'x'
        left = size; block = os.urandom(1 << 16) * 16
        try:
            w.send_raw(w.preamble('push_file' if why != 'action' else 'list_versions', hd, left))
            while left: w.send_raw(block[:min(left, len(block))]); left -= min(left, len(block))
            h = w.read_reply()[0]
            ctx.check(why == 'action' or h['status'] != 'ok', 'an upload is not refused', (why, h))
        except (WireError, OSError): pass
        if why == 'path':
            try: w.abort()
            except (WireError, OSError): pass
        w.close(); ctx.count('unwanted'); server('unwanted upload')
    # -------------------------------- the manager
    s3 = Lean(os.path.join(ctx.dir, 's3'))
    config = {'repositories' : {n : dict(d, backup = True) for n, d in world.config['repositories'].items()}, 's3' : {'access_key' : 'a', 'secret_key' : 's', 'bucket' : 'b'}, 'crypto' : {'crypt_password' : 'pw'}, 'chunk_size' : rng.choice([200000, 1048576])}
    for cmd in ['verify', 'backup', 'restore'] if rng.random() < 0.5 else [rng.choice(['verify', 'gc'])]:
        if os.path.exists(log): os.remove(log)
        if cmd == 'gc': world.server.kill()
        # the derivation of keys takes memory of its own, which is not for files
        r = run_repo(config, cmd, s3 = s3, before = ready(measured(ctx, log)), timeout = 250)
        ctx.check(r.ok, '%s of large files fails: %r' % (cmd, r), r.extra.get('tb'))
        peak('manager', cmd, log)
        if cmd == 'backup': ctx.count('backed_up')
        if cmd == 'restore':
            ctx.count('restored')
            d = world.store['repo'] + '_restore/files'
            got = [os.path.join(x, f) for x, _, fs in os.walk(d) for f in fs]
            ctx.check(got, 'nothing is restored')
            for f in got: ctx.check(hash_of(f) == ''.join(f.split('/')[-2:]), 'a large file is not restored as it was', f)
    ctx.sample({'size' : size, 'most_kb' : most})

def ready(then):
    """ what takes memory once, whatever the files are """
    def before():
        import pysodium
        # the memory of a derivation is given back, it must not hide in the peak
        real = pysodium.crypto_pwhash; known = {}
        def new(*a, **k):
            key = repr((a, k))
            if key not in known: known[key] = core.fork_call(lambda: real(*a, **k))[1]
            return known[key]
        pysodium.crypto_pwhash = new
        then()
    return before
