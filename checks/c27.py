""" everything a real backup sends is searched for what it must not reveal; every kind of tampering with the stored objects is followed by a real restore, whose outcome is compared with what was committed """
import os, json, base64, zlib
from vlib import gen
from vlib.hist import Hist, client_commit, expected
from vlib.s3 import S3
from vlib.wire import sha
from vlib.world import World, run_repo
import pysodium

LEVEL = 'exploration'
RULE = ('a case backs up one or two generated repositories with marked file contents, names, messages and users, searches the arguments of every call to the remote store (as they are, and decoded in usual ways) for the marks, the password and the key, compares pairs of objects for a common key stream, and then changes, truncates, extends, empties, exchanges, re-orders or removes stored objects of every kind at generated positions, restores, '
        'and compares what is restored, if restore claims success, with what was committed; a failed restore must not leave a repository that has a head. Wrong passwords must restore nothing. An evaluation is one restore; distinct by kind of object, of tampering, position and outcome')
ASSUMPTIONS = ['the remote store behaves as its stand-in in vlib/s3.py', 'the key derivation parameters written into the objects are not changed to ones that need gigabytes of memory']
REQUIRED = ['calls_searched', 'marks_searched', 'tampered', 'refused', 'restored_the_same', 'wrong_passwords', 'long_passwords', 'head_tampered', 'commit_tampered', 'tree_tampered', 'file_tampered', 'salt_tampered', 'exchanged', 'truncated', 'extended', 'emptied', 'altered', 'removed', 'at_chunk_boundary', 'older_head', 'forged', 'second_stores']
QUICK_WALL = 24
THOROUGH_WALL = 700
NEEDS_REPO_MANAGER = True

def plan(tier): return 28 if tier == 'quick' else 2000

class Case:
    def __init__(self, ctx):
        rng = ctx.rng; self.ctx = ctx; self.rng = rng
        self.mark = ''.join(rng.choice('bcdfghjkmnpqrtvwxz') for _ in range(9))
        self.users = ['user' + self.mark, 'uß' + self.mark]
        self.names = ['repo', 'other'][:rng.choice([1, 2])]
        self.chunk = rng.choice([16, 50, 200, 1000, 5000, 1048576])
        self.world = World(ctx, repos = tuple(self.names), users = tuple(self.users))
        self.hist = {n : Hist() for n in self.names}
        self.s3 = S3(os.path.join(ctx.dir, 's3'), log = True)
        self.password = 'Password%s' % self.mark[::-1]
        if ctx.index % 3 == 1: self.password = self.password * rng.choice([4, 5, 8, 16, 60]); ctx.count('long_passwords')
        self.marks = {'content' : [], 'name' : [], 'message' : [], 'user' : [u.encode() for u in self.users]}

    def config(self, password = None):
        c = {'repositories' : {}, 's3' : {'access_key' : 'a', 'secret_key' : 's', 'bucket' : 'b'}, 'crypto' : {'crypt_password' : password if password is not None else self.password}, 'chunk_size' : self.chunk}
        for n, d in self.world.config['repositories'].items(): c['repositories'][n] = dict(d, backup = True)
        return c

    def m(self, kind):
        t = '%s%s%d' % (kind[:1], self.mark, len(self.marks[kind]))
        self.marks[kind].append(t.encode())
        return t

    def commit(self, n):
        rng = self.rng; h = self.hist[n]
        user = rng.choice(self.users)
        w = self.world.wire(n, user)
        puts = {}
        for _ in range(rng.choice([1, 2, 3])):
            p = '/' + '/'.join(self.m('name') for _ in range(rng.choice([1, 1, 2])))
            d = self.m('content').encode()
            size = rng.choice([0, 0, self.chunk, 2 * self.chunk, 2 * self.chunk + 1])
            if self.chunk > 100000: size = rng.choice([0, 3000])
            if len(d) < size: d = (d + b' ') * (size // (len(d) + 1)) + b'x' * (size % (len(d) + 1))
            puts[p] = d
        if h.files and rng.random() < 0.5: puts[rng.choice(sorted(h.files))] = self.m('content').encode()
        r = client_commit(w, h.head, puts, [], self.m('message'))
        self.ctx.check(r['status'] == 'ok', 'a commit was refused', r)
        files, changes = expected(h.files, puts, [])
        h.add(r['head'], user, '', files = files, changes = changes)
        w.close()

    # ------------------------------------------------ confidentiality
    def search(self, what):
        ctx = self.ctx
        secrets = [m for l in self.marks.values() for m in l] + [self.mark.encode(), self.password.encode()]
        # the key
        salt = self.s3.all().get('salt_file')
        if salt:
            try:
                key = pysodium.crypto_pwhash(pysodium.crypto_secretstream_xchacha20poly1305_KEYBYTES, self.password.encode(), bytes.fromhex(salt.decode()), pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE, pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, pysodium.crypto_pwhash_ALG_ARGON2I13)
                secrets += [key, key.hex().encode(), base64.b64encode(key)[:40]]
            except ValueError: pass
        def flat(x):
            if isinstance(x, (bytes, bytearray)): yield bytes(x)
            elif isinstance(x, str): yield x.encode('utf8', 'surrogateescape')
            elif isinstance(x, dict):
                for k, v in x.items(): yield from flat(k); yield from flat(v)
            elif isinstance(x, (list, tuple)):
                for v in x: yield from flat(v)
        for name, kw in self.s3.sent():
            ctx.count('calls_searched')
            for b in flat(kw):
                for form in decoded(b):
                    for s in secrets:
                        if s in form: ctx.check(False, what + ': what is sent to the remote store shows ' + ('the password or the key' if s in secrets[-4:] else 'content, names, messages or users'), (name, kw.get('Key'), s))
                    ctx.count('marks_searched', len(secrets))
                for s in secrets: 
                    for e in (base64.b64encode(s)[:-4], s.hex().encode(), s[::-1]):
                        if len(e) > 7 and e in b: ctx.check(False, what + ': what is sent to the remote store shows encoded text', (name, kw.get('Key'), s))

    # ------------------------------------------------ a backup, and how its keys are made from the password
    def backup(self, s3 = None):
        log = os.path.join(self.ctx.dir, 'derivations')
        if os.path.exists(log): os.remove(log)
        def watch():
            real = pysodium.crypto_pwhash
            def new(n, password, salt, ops, mem, *a, **k):
                with open(log, 'a', encoding = 'utf8') as f: f.write(json.dumps([bytes(salt).hex(), ops, mem]) + '\n')
                return real(n, password, salt, ops, mem, *a, **k)
            pysodium.crypto_pwhash = new
        r = run_repo(self.config(), 'backup', s3 = s3 if s3 is not None else self.s3, before = watch)
        calls = [json.loads(l) for l in open(log, encoding = 'utf8')] if os.path.exists(log) else []
        for _, ops, mem in calls:
            self.ctx.check(ops >= pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE and mem >= pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, 'guessing the password of a backup is cheaper than for interactive use', (ops, mem))
        self.ctx.count('derivations_seen', len(calls))
        return r, {c[0] for c in calls}

    # ------------------------------------------------ two objects must not reveal each other
    def key_streams(self, what):
        ctx = self.ctx; rng = self.rng; pairs = []
        sent = self.s3.all()
        for name in self.names:
            base = self.world.store[name]
            for kind in ('index', 'files'):
                for d in sorted(os.listdir(os.path.join(base, kind))):
                    for f in sorted(os.listdir(os.path.join(base, kind, d))):
                        cipher = next((v for k, v in sorted(sent.items()) if k.endswith('/%s/%s/%s' % (kind, d, f))), None)
                        with open(os.path.join(base, kind, d, f), 'rb') as h: plain = h.read(400)
                        if cipher is not None and len(plain) >= 16: pairs.append((f, plain[:self.chunk], cipher))
        rng.shuffle(pairs); n = 0
        for i, (f1, p1, c1) in enumerate(pairs):
            for f2, p2, c2 in pairs[:i]:
                l = min(len(p1), len(p2))
                # where they begin to differ: what they have in common is found in the headers as well
                x = bytes(a ^ b for a, b in zip(p1[:l], p2[:l])).lstrip(b'\0')[:32]
                if len(x) - x.count(0) < 8: continue
                n += 1
                if n > 40: return
                y = bytes(a ^ b for a, b in zip(c1, c2))
                ctx.count('pairs_compared')
                ctx.check(x not in y, what + ': two objects are encrypted with the same key stream, so one shows the other', (f1, f2, y.find(x)))

    # ------------------------------------------------ restores
    def clear(self):
        for n in self.names:
            d = self.world.config['repositories'][n]['path'] + '_restore'
            for base, dirs, files in os.walk(d, topdown = False):
                for x in files: os.remove(os.path.join(base, x))
                for x in dirs: os.rmdir(os.path.join(base, x))
            if os.path.isdir(d): os.rmdir(d)

    def restore(self, password = None):
        self.clear()
        return run_repo(self.config(password), 'restore', s3 = self.s3, timeout = 100)

    def objects(self, n):
        """ the committed objects, by name """
        out = {}
        base = self.world.config['repositories'][n]['path']
        for kind in ('files', 'index'):
            for d, _, names in os.walk(os.path.join(base, kind)):
                for x in names:
                    full = os.path.join(d, x)
                    with open(full, 'rb') as f: out[os.path.relpath(full, base)] = f.read()
        return out

    def judge(self, r, what, heads = None):
        """ what is there after a restore """
        ctx = self.ctx
        for n in self.names:
            d = self.world.config['repositories'][n]['path'] + '_restore'
            head = None
            if os.path.exists(d + '/head'): head = open(d + '/head').read()
            known = [x.id for x in self.hist[n].revs]
            if r.ok: ctx.check(head is not None or not known, what + ': restore ends well without a repository', n)
            if head is None: continue
            ctx.check(head in known, what + ': a repository with a head that was never committed is restored', (head, r))
            if r.ok and heads is None: ctx.check(head == known[-1], what + ': restore ends well with an older state', (known.index(head), len(known)))
            # everything below the head has to be what was committed
            good = self.objects(n)
            need = self.reachable(n, head)
            for name in need:
                full = os.path.join(d, name)
                have = open(full, 'rb').read() if os.path.exists(full) else None
                ctx.check(have == good[name], what + ': the restored repository has a head and contains something that was never committed, or lacks something', (name, None if have is None else len(have), len(good[name]), r))

    def reachable(self, n, head):
        """ names of the objects the revision and its ancestors consist of """
        base = self.world.config['repositories'][n]['path']
        out = set()
        def obj(h, kind = 'index'):
            name = kind + '/' + h[:2] + '/' + h[2:]
            out.add(name)
            return name
        def tree(h):
            t = json.load(open(os.path.join(base, obj(h))))
            for d in t['dirs'].values(): tree(d)
            for f in t['files'].values(): obj(f['hash'], 'files')
        while head != 'root':
            c = json.load(open(os.path.join(base, obj(head))))
            tree(c['tree_root'])
            head = c['parent']
        return out

    # ------------------------------------------------ tampering
    def kind(self, key):
        if key == 'salt_file': return 'salt'
        rest = key.split('/', 1)[1]
        if rest == 'head': return 'head'
        if rest.startswith('commits/'): return 'marker'
        if rest.startswith('files/'): return 'file'
        h = ''.join(rest.split('/')[1:])
        n = key.split('/')[0]
        return 'commit' if h in [x.id for x in self.hist[n].revs] else 'tree'

    def tamper(self, objs):
        ctx = self.ctx; rng = self.rng
        kinds = {}
        for k in objs: kinds.setdefault(self.kind(k), []).append(k)
        kind = rng.choice(['head', 'commit', 'tree', 'file', 'file', 'file', 'commit', 'tree', 'salt', 'marker'])
        if kind not in kinds: kind = 'commit'
        key = rng.choice(sorted(kinds[kind])); data = objs[key]
        how = rng.choice(['alter', 'alter', 'alter', 'truncate', 'truncate', 'extend', 'empty', 'exchange', 'exchange', 'remove', 'reorder', 'boundary', 'boundary', 'plain', 'header'])
        n = 4 + int.from_bytes(data[:4], 'big') if kind != 'salt' and len(data) > 4 else 0
        new = bytearray(data)
        step = self.chunk + 17
        if how == 'alter':
            i = rng.choice([rng.randrange(len(new)), rng.randrange(len(new)), min(n + rng.randrange(24), len(new) - 1), len(new) - 1 - rng.randrange(min(17, len(new)))])
            if i < 2 and kind != 'salt': i = 2 # not a length of gigabytes
            new[i] ^= 1 << rng.randrange(8)
            if kind != 'salt' and b'"M":' in data[:n] and data[:n].index(b'"M":') < i < data[:n].index(b'"M":') + 14: return None
            ctx.count('altered')
        elif how == 'truncate': new = new[:rng.choice([rng.randrange(len(new)), len(new) - 1, n, n + 24, n // 2])]; ctx.count('truncated')
        elif how == 'extend': new += rng.choice([b'x', bytes(17), bytes(new[-17:]), bytes(new), b'\n', os.urandom(0) + bytes(rng.randrange(256) for _ in range(40))]); ctx.count('extended')
        elif how == 'empty': new = bytearray(); ctx.count('emptied')
        elif how == 'exchange':
            pool = [k for k in objs if k != key and (rng.random() < 0.3 or self.kind(k) == kind)]
            if not pool: return None
            other = rng.choice(sorted(pool)); new = bytearray(objs[other]); ctx.count('exchanged'); how = 'exchange with ' + self.kind(other)
            if rng.random() < 0.4: self.s3.put(other, data)
        elif how == 'remove': ctx.count('removed'); self.s3.delete_object(Key = key); return key, kind, how
        elif how == 'reorder':
            body = bytes(new[n + 24:]); chunks = [body[i:i + step] for i in range(0, len(body), step)]
            if len(chunks) < 2 or kind == 'salt': return None
            k = rng.randrange(3)
            if k == 0: chunks[0], chunks[1] = chunks[1], chunks[0]
            elif k == 1: chunks.append(chunks[0])
            else: del chunks[rng.randrange(len(chunks) - 1)]
            new = bytearray(new[:n + 24] + b''.join(chunks)); ctx.count('altered'); ctx.count('at_chunk_boundary')
        elif how == 'boundary':
            body = len(new) - n - 24
            if kind == 'salt' or body <= step: return None
            new = new[:n + 24 + step * rng.randrange(1, (body - 1) // step + 1)]; ctx.count('truncated'); ctx.count('at_chunk_boundary')
        elif how == 'plain': # something not encrypted at all, in the format's own terms
            if kind == 'salt': return None
            content = {'head' : (self.hist[key.split('/')[0]].head if rng.random() < 0.5 else 'a' * 64).encode(), 'commit' : b'{}', 'tree' : b'{"files":{},"dirs":{}}', 'file' : b'never committed', 'marker' : b'exists'}[kind]
            head = json.dumps({'V' : '1', 'S' : '1000'}, separators = (',', ':')).encode()
            new = bytearray(len(head).to_bytes(4, 'big') + head + content); ctx.count('altered')
        elif how == 'header': # the description of the format changed
            if kind == 'salt': return None
            try: h = json.loads(bytes(new[4:n]))
            except ValueError: return None
            k = rng.randrange(5)
            if k == 0: h.pop('E', None)
            elif k == 1: h['S'] = str(int(h.get('S', '100')) + rng.choice([-1, 1, 17]))
            elif k == 2 and isinstance(h.get('E'), dict): h['E']['S'] = base64.b64encode(bytes(16)).decode()
            elif k == 3: h['V'] = '2'
            elif isinstance(h.get('E'), dict): h['E']['O'] = 3
            b = json.dumps(h, separators = (',', ':')).encode()
            new = bytearray(len(b).to_bytes(4, 'big') + b + bytes(new[n:])); ctx.count('altered')
        if bytes(new) == data: return None
        self.s3.put(key, bytes(new))
        return key, kind, how

def decoded(b):
    yield b
    if len(b) > 8:
        for f in (base64.b64decode, bytes.fromhex, zlib.decompress, lambda x: zlib.decompress(x, -15), lambda x: x[::-1], lambda x: x.decode('utf-16-le').encode()):
            try:
                x = f(b if f is not bytes.fromhex else b.decode())
                if x: yield x
            except Exception: pass # pylint: disable=broad-except

def case(ctx):
    rng = ctx.rng
    c = Case(ctx)
    older = None
    for n in c.names:
        for _ in range(rng.choice([1, 2, 3])): c.commit(n)
    if rng.random() < 0.6:
        r, _ = c.backup(); ctx.check(r.ok, 'a backup fails: %r' % r, r.extra.get('tb'))
        older = c.s3.all()
        for n in c.names: c.commit(n)
    if rng.random() < 0.3: # one that fails sends things as well
        c.s3.arm({rng.randrange(30) : (rng.choice(['io', 'client']), 'after')})
        run_repo(c.config(), 'backup', s3 = c.s3)
        c.s3.arm({})
    r, salts = c.backup(); ctx.check(r.ok, 'a backup fails: %r' % r, r.extra.get('tb'))
    good = c.s3.all()
    if rng.random() < 0.4: # another store with the same password
        second = S3(os.path.join(ctx.dir, 's3b'), log = True)
        r, others = c.backup(second); ctx.check(r.ok, 'a backup fails: %r' % r, r.extra.get('tb'))
        ctx.check(not salts & others, 'two stores have the same salt, which shows that their passwords are the same and lets one guess serve for both', salts & others)
        there = second.all()
        for k in good:
            ctx.check(k not in there or len(good[k]) < 8 or good[k] != there[k], 'an object is the same in two stores, which shows that their passwords are the same', k)
        ctx.count('second_stores'); ctx.evaluated('second store')
    c.search('backup'); c.key_streams('backup')
    r = c.restore(); ctx.check(r.ok, 'a restore fails: %r' % r, r.extra.get('tb'))
    c.judge(r, 'restore'); ctx.count('restored_the_same')
    # -------------------------------- wrong passwords
    for pw in rng.sample([c.password + 'x', c.password[:-1], c.password[:-1] + 'ü', c.password.upper(), c.password + '\0', ' ' + c.password, 'x', ''], 2):
        r = c.restore(pw)
        ctx.check(not r.ok, 'a restore with a wrong password ends well', repr(pw))
        marks = [m for l in c.marks.values() for m in l]
        for n in c.names:
            for base, _, files in os.walk(c.world.config['repositories'][n]['path'] + '_restore'):
                for x in files:
                    b = open(os.path.join(base, x), 'rb').read()
                    ctx.check(not any(m in b for m in marks) and x != 'head', 'a restore with a wrong password leaves something', os.path.join(base, x))
        ctx.count('wrong_passwords'); ctx.evaluated(('password', r.exc))
    # -------------------------------- tampering
    for _ in range(14 if ctx.quick else 60):
        done = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            t = c.tamper(good)
            if t: done.append(t)
        if not done: continue
        r = c.restore()
        what = '; '.join('%s object %s: %s' % (t[1], t[0], t[2]) for t in done)
        ctx.note('tampered', what, r)
        ctx.check(r.kind == 'done', 'a restore from damaged objects hangs or dies: %r' % r, what)
        for t in done: ctx.count(t[1] + '_tampered')
        ctx.count('tampered')
        c.judge(r, what)
        ctx.count('restored_the_same' if r.ok else 'refused')
        ctx.evaluated(tuple((t[1], t[2]) for t in done) + (r.exc, c.chunk))
        for k, d in good.items(): 
            if c.s3.all().get(k) != d: c.s3.put(k, d)
    for _ in range(2): # a repository made by somebody who can write to the remote, but has no password
        n = rng.choice(c.names)
        forge(c, n, rng.random() < 0.5)
        r = c.restore(); c.judge(r, 'forged repository'); ctx.count('forged')
        ctx.evaluated(('forged', r.exc))
        for k in c.s3.all():
            if k not in good: c.s3.delete_object(Key = k)
        for k, d in good.items(): c.s3.put(k, d)
    if older: # the head of an older backup: only what was committed may come back
        for n in c.names:
            if n + '/head' in older: c.s3.put(n + '/head', older[n + '/head'])
        r = c.restore(); c.judge(r, 'older head', heads = True); ctx.count('older_head')
        for k, d in good.items(): c.s3.put(k, d)
    r = c.restore(); ctx.check(r.ok, 'a restore fails after the objects were put right: %r' % r, r.extra.get('tb')); c.judge(r, 'restore')
    ctx.sample({'objects' : len(good), 'chunk_size' : c.chunk, 'repositories' : len(c.names)})

def forge(c, n, extend):
    """ objects in the format's own terms, which are not encrypted or encrypted with another password. With extend, one revision on top of those there are """
    rng = c.rng
    name = c.m('name')
    how = rng.choice(['plain', 'null', 'other'])
    def wrap(data):
        if how == 'plain': h = json.dumps({'V' : '1', 'S' : '1000'}, separators = (',', ':')).encode()
        elif how == 'null': h = json.dumps({'V' : '1', 'S' : '1000', 'E' : ''}, separators = (',', ':')).encode()
        else:
            salt = bytes(16)
            h = json.dumps({'V' : '1', 'S' : '1000', 'E' : {'A' : 'ARGON2I13', 'O' : pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE, 'M' : pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, 'S' : base64.b64encode(salt).decode()}}, separators = (',', ':')).encode()
            key = pysodium.crypto_pwhash(pysodium.crypto_secretstream_xchacha20poly1305_KEYBYTES, b'their password', salt, pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE, pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, pysodium.crypto_pwhash_ALG_ARGON2I13)
            st, head = pysodium.crypto_secretstream_xchacha20poly1305_init_push(key)
            data = head + pysodium.crypto_secretstream_xchacha20poly1305_push(st, data, h, 0)
        return len(h).to_bytes(4, 'big') + h + data
    base = c.world.config['repositories'][n]['path']
    def put(kind, data):
        h = sha(data); c.s3.put('%s/%s/%s/%s' % (n, kind, h[:2], h[2:]), wrap(data)); return h
    # modelled on a real revision
    old = c.hist[n].head
    commit = json.load(open(os.path.join(base, 'index', old[:2], old[2:])))
    tree = json.load(open(os.path.join(base, 'index', commit['tree_root'][:2], commit['tree_root'][2:])))
    f = put('files', b'forged')
    tree['files'] = {name : dict(next(iter(tree['files'].values()), {'type' : 'file'}), hash = f)}
    tree['dirs'] = {}
    commit['tree_root'] = put('index', json.dumps(tree).encode())
    commit['parent'] = old if extend else 'root'
    head = put('index', json.dumps(commit).encode())
    c.s3.put(n + '/head', wrap(head.encode()))
    c.s3.put(n + '/commits/' + head, wrap(b'exists'))
