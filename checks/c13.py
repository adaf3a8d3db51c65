""" every path, revision and list field of every operation filled with hostile values, the file accesses of the real server and of updating clients observed and confined below the process; decoys around the storage, replies compared with what was committed """
import json, os
from vlib.core import lib, Violation
from vlib.world import World
from vlib.wire import Wire, WireError, sha
from vlib.hist import Hist, simple_commit
from vlib import gen

LEVEL = 'exploration'
RULE = ('a case plants decoys next to, above and inside the storage of a repository, runs the server with all its file accesses recorded (writes outside the storage refused and recorded) and sends operations with values made from a grammar of escapes, private names, damaged and foreign identifiers, other kinds of objects, '
        'control characters and wrong types, before, inside and after commits; whatever gets committed is then pulled by real clients with confined writes. An evaluation is one hostile request or one update after hostile commits; distinct by operation, field, kind of value and outcome')
ASSUMPTIONS = ['file accesses are made through the C library', 'one tree does not hold a file and a directory of the same name', 'names that the file system can not hold (over 255 bytes) are not expected to be delivered']
REQUIRED = ['read_requests', 'push_requests', 'delete_requests', 'push_accepted', 'push_refused', 'victim_updates', 'reads_refused', 'private_names', 'dotdot', 'decoy_targets', 'foreign_ids', 'other_objects']
QUICK_WALL = 20
THOROUGH_WALL = 600

def plan(tier): return 400 if tier == 'quick' else 1500

def confine(allowed, audited, log):
    """ to be called in the process that is to be confined """
    def f():
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        for a in allowed: lib.sh_allow(os.path.realpath(a).encode())
        for a in audited: lib.sh_audit(os.path.realpath(a).encode())
        lib.sh_log(fd)
        lib.sh_jail(1)
    return f

def accesses(log):
    if not os.path.exists(log): return []
    with open(log, errors = 'replace') as f: return [l.rstrip('\n') for l in f if l.startswith(('DENY', 'READ'))]

SECRET = 'decoy-content-that-must-never-be-served'

class Case:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = rng = ctx.rng
        self.world = World(ctx, repos = ['repo', 'second'])
        self.a = self.world.store['repo']; self.b = self.world.store['second']
        self.hist = Hist(); other = Hist()
        for hist, repo in ((self.hist, 'repo'), (other, 'second')):
            w = self.world.wire(repo)
            for i in range(rng.choice([1, 2])):
                ops = [('push', '/.bvn_ignore', b'nothing-like-this' + gen.unique(rng))] + [('push', p, gen.unique(rng)) for p in rng.sample(['/a', '/dir/b', '/dir/sub/c', '/x y', '/victim'], 3)]
                if i: ops.append(('push', '/json', json.dumps({'type' : 'tree', 'files' : {'evil' : {'path' : 'evil', 'hash' : '../../decoy'}}, 'dirs' : {}}).encode()))
                id = simple_commit(w, hist, 'ann', ops, 'm%d' % i)
                hist.add(id, 'ann', 'm%d' % i, ops)
            w.close(); self.world.wait_unlocked(repo)
        self.foreign = other.head
        # decoys: a thing to be found wherever an escape may lead
        root = ctx.dir
        self.decoys = []
        evil_tree = json.dumps({'type' : 'tree', 'files' : {'secret' : {'path' : 'secret', 'hash' : '0' * 64}}, 'dirs' : {}})
        evil_commit = json.dumps({'type' : 'commit', 'parent' : 'root', 'utc_date_time' : '01-01-2000 00:00:00:000000', 'commit_by' : SECRET, 'commit_message' : SECRET, 'tree_root' : '../decoytree', 'changes' : [{'path' : SECRET, 'status' : 'new'}]})
        for d in (root, root + '/srv', root + '/outside', self.a):
            os.makedirs(d, exist_ok = True)
            for n, text in (('decoy', SECRET), ('decoytree', evil_tree), ('decoycommit', evil_commit)):
                p = os.path.join(d, n)
                with open(p, 'w') as f: f.write(text)
                self.decoys.append(p)
        self.tree_hashes = []; self.file_hashes = []
        for base, _, names in os.walk(self.a + '/index'):
            for n in names:
                with open(os.path.join(base, n)) as f:
                    if json.load(f)['type'] == 'tree': self.tree_hashes.append(os.path.basename(base) + n)
        for base, _, names in os.walk(self.a + '/files'):
            for n in names: self.file_hashes.append(os.path.basename(base) + n)
        self.log = root + '/server.access'
        self.world.server.kill()
        self.world.server.before = confine([self.a], [self.b, root + '/decoy', root + '/decoytree', root + '/decoycommit', root + '/outside', root + '/srv/decoy', root + '/srv/decoytree', root + '/srv/decoycommit', '/etc/passwd', '/etc/hostname', '/root'], self.log)
        self.world.server.start()
        self.state_b = self.snapshot_b()
        self.contents = {d for r in self.hist.revs for d in r.files.values()}
        self.seen = 0

    def snapshot_b(self):
        out = {}
        for base, _, names in os.walk(self.b):
            for n in names:
                if n.startswith('server_transient'): continue
                with open(os.path.join(base, n), 'rb') as f: out[os.path.join(base, n)] = f.read()
        return out

    def check_accesses(self, what):
        new = accesses(self.log)[self.seen:]
        self.seen += len(new)
        self.ctx.check(not new, 'the server reaches outside of the storage of the repository: ' + what, new[:5])

    # ------------------------------------------------ values
    def bad_path(self):
        rng = self.rng; up = '../' * rng.randrange(1, 6)
        d = rng.choice(self.decoys)
        kind, v = rng.choice([
            ('dotdot', lambda: '/' + up + 'decoy'), ('dotdot', lambda: up + 'decoy'), ('dotdot', lambda: '/dir/' + up + rng.choice(['decoy', 'evil', 'srv/decoy'])), ('dotdot', lambda: '/..'), ('dotdot', lambda: '..'), ('dotdot', lambda: '/a/..'),
            ('dotdot', lambda: '/dir/../../wcx/evil'), ('dotdot', lambda: '/..\\..\\evil'), ('dotdot', lambda: '\\..\\evil'), ('dotdot', lambda: '/dir\\..\\evil'), ('dotdot', lambda: '/.. /x'), ('dotdot', lambda: '/..\0/x'),
            ('dot', lambda: '/./x%d' % rng.randrange(9)), ('dot', lambda: '/.'), ('dot', lambda: '/dir/./y'), ('dot', lambda: './z'),
            ('empty', lambda: ''), ('empty', lambda: '/'), ('empty', lambda: '//'), ('empty', lambda: '//x'), ('empty', lambda: '/dir//x'), ('empty', lambda: '/newdir%d/' % rng.randrange(9)), ('empty', lambda: '/dir/sub//'),
            ('private', lambda: '/.bvn'), ('private', lambda: '/.bvn/client_configuration.json'), ('private', lambda: '/.bvn/x/y'), ('private', lambda: '/.bvn_pull_ignore'), ('private', lambda: '/.shttpfs/client_configuration.json'), ('private', lambda: '/.bvn/manifest.db'),
            ('private', lambda: '/.shttpfs_pull_ignore'), ('private', lambda: '//.bvn/x'), ('private', lambda: '/./.bvn/x'), ('private', lambda: '.bvn/x'), ('private', lambda: '/x/../.bvn/y'), ('private', lambda: '/.bvn_pull_ignore/x'), ('private', lambda: '/.bvn/downloading'),
            ('private', lambda: '/.bvn/conflict_resolution'), ('private', lambda: '/.bvn/journal/x'), ('private', lambda: '/.bvn//../.bvn/z'), ('private', lambda: '/.shttpfs'), ('private', lambda: '/.bvn/lock_file'),
            ('absolute', lambda: d), ('absolute', lambda: '/' + d), ('absolute', lambda: d.lstrip('/')), ('absolute', lambda: '/etc/hostname'), ('relative', lambda: 'plain%d' % rng.randrange(9)), ('relative', lambda: 'dir/plain'), ('relative', lambda: ' /x'),
            ('nul', lambda: '/a\0b'), ('nul', lambda: '/\0'), ('nul', lambda: '/.bvn\0x'), ('control', lambda: '/line\nbreak%d' % rng.randrange(9)), ('control', lambda: '/tab\t%d' % rng.randrange(9)), ('control', lambda: '/car\rreturn%d' % rng.randrange(9)), ('control', lambda: '/\x1b[2J%d' % rng.randrange(9)),
            ('blank', lambda: '/ lead%d' % rng.randrange(9)), ('blank', lambda: '/trail%d ' % rng.randrange(9)), ('blank', lambda: '/ '), ('blank', lambda: '/.bvn /x'), ('blank', lambda: '/ .bvn/x'), ('blank', lambda: '/.bvn\t/x'),
            ('similar', lambda: '/.bvnx'), ('similar', lambda: '/.shttpfs_ignore'), ('similar', lambda: '/.BVN/x'), ('similar', lambda: '/dir/.bvn_pull_ignore'), ('similar', lambda: '/...'), ('similar', lambda: '/..x/..y'), ('similar', lambda: '/%2e%2e/%2e%2e/evil'), ('similar', lambda: '/.bvn%2fx'),
            ('similar', lambda: '/a:b%d' % rng.randrange(9)), ('similar', lambda: '/C:\\x'), ('similar', lambda: '/~root'), ('similar', lambda: '/$HOME/x'), ('similar', lambda: '/\u2025/x'), ('similar', lambda: '/\uff0e\uff0e/x'), ('similar', lambda: '/\u2044x'), ('similar', lambda: '/head'), ('similar', lambda: '/files/aa/bb'),
            ('deep', lambda: '/e' * rng.choice([50, 150])), ('long', lambda: '/' + 'l' * rng.choice([255, 256, 5000])), ('similar', lambda: '/-rf'), ('similar', lambda: '/*'), ('similar', lambda: "/'; drop table active_commit_changes; --")])
        v = v()
        if 'decoy' in v: self.ctx.count('decoy_targets')
        if kind == 'private': self.ctx.count('private_names')
        if kind == 'dotdot': self.ctx.count('dotdot')
        return kind, v

    def bad_id(self):
        rng = self.rng; h = self.hist.head
        rel = rng.choice(['../', '../../', '../../../']) + rng.choice(['decoycommit', 'srv/decoycommit', 'outside/decoycommit', 'r1/head'])
        kind, v = rng.choice([
            ('dotdot', lambda: rel), ('dotdot', lambda: '..' + rel), ('dotdot', lambda: h[:2] + '/../' + rel), ('dotdot', lambda: './' + h), ('dotdot', lambda: '..' + os.path.join(self.a, 'decoycommit')), ('dotdot', lambda: '../head'), ('dotdot', lambda: '../files/' + self.file_hashes[0][:2] + '/' + self.file_hashes[0][2:]),
            ('absolute', lambda: rng.choice(self.decoys)), ('absolute', lambda: '//' + rng.choice(self.decoys)), ('absolute', lambda: 'aa' + rng.choice(self.decoys)),
            ('cut', lambda: h[:2]), ('cut', lambda: h[:-1]), ('cut', lambda: h[:1]), ('cut', lambda: ''), ('longer', lambda: h + '0'), ('longer', lambda: h + '/'), ('longer', lambda: h + '\0'), ('longer', lambda: h + '\n'), ('case', lambda: h.upper()), ('split', lambda: h[:2] + '/' + h[2:]),
            ('none', lambda: '0' * 64), ('none', lambda: 'f' * 64), ('none', lambda: 'g' * 64), ('none', lambda: 'head'), ('none', lambda: 'HEAD'), ('none', lambda: '-1'), ('none', lambda: 'x' * 10000), ('none', lambda: '\u0660' * 64), ('none', lambda: 'root '),
            ('object', lambda: rng.choice(self.tree_hashes)), ('object', lambda: rng.choice(self.file_hashes)), ('foreign', lambda: self.foreign)])
        if kind == 'foreign': self.ctx.count('foreign_ids')
        if kind == 'object': self.ctx.count('other_objects')
        return kind, v()

    # ------------------------------------------------ requests
    def connect(self):
        return self.world.wire('repo', 'bob', '127.250.5.%d' % self.rng.randrange(1, 200))

    def no_secret(self, what, *data):
        for d in data:
            t = d if isinstance(d, bytes) else json.dumps(d).encode()
            self.ctx.check(SECRET.encode() not in t and self.foreign.encode() not in t, 'a reply carries what is not a committed file: ' + what, t[:300])

    def reads(self, w):
        """ one hostile reading request """
        ctx = self.ctx; rng = self.rng
        op = rng.choice(['pull', 'pull', 'pull rev', 'list_files', 'list_changes', 'find_changed', 'find_changed client'])
        revs = {r.id : r for r in self.hist.revs}
        field = 'version'; h = None; b = b''
        try:
            if op.startswith('pull'):
                rev = None; path = rng.choice(sorted(self.hist.files))
                if op == 'pull': field = 'path'; kind, path = self.bad_path()
                else: kind, rev = self.bad_id()
                ctx.note(op, repr(path)[:200], repr(rev)[:200])
                h, b = w.pull(path, rev)
                if b is not None and not (rev is None and self.hist.files.get(path) == b):
                    ctx.check(rev is None or rev in revs, 'a file of a revision that does not exist is served', (path, rev))
                    ctx.check(b in self.contents, 'something that is not a committed file is served', (path, rev, b[:200]))
                self.no_secret(op, h, b or b'')
            elif op in ('list_files', 'list_changes'):
                kind, rev = self.bad_id()
                ctx.note(op, repr(rev)[:200])
                h, b = w.req(op, w.base(show_head = '0', version_id = rev), b'{}')
                if h['status'] == 'ok':
                    got = json.loads(b)['files' if op == 'list_files' else 'changes']
                    ctx.check(rev in revs or not got, 'a revision that does not exist is shown by ' + op, (rev, got))
                self.no_secret(op, h, b)
            else:
                changes = {}; rev = self.hist.head
                if op == 'find_changed': kind, rev = self.bad_id()
                else:
                    field = 'client_changes'
                    kind, p = self.bad_path()
                    changes = {p : rng.choice([{'path' : p, 'status' : 'new', 'created' : 1, 'last_mod' : 1}, {'path' : p, 'status' : 'deleted'}, {'status' : 'x'}, {}, [], None, 7])}
                ctx.note(op, repr(rev)[:200], repr(changes)[:200])
                h, data = w.find_changed(rev, changes, rng.random() < 0.5)
                if op == 'find_changed' and data is not None: ctx.check(rev in revs or rev == 'root', 'changes since a revision that does not exist are shown', rev)
                self.no_secret(op, h, data or {})
        except WireError as e:
            ctx.check(not e.slow, 'no answer to a hostile request', op)
            w.close(); h = None
        ctx.count('read_requests')
        if h is None or h['status'] != 'ok': ctx.count('reads_refused')
        self.check_accesses(op)
        ctx.evaluated((op, field, kind, None if h is None else h['status']))
        return w if h is not None else self.connect()

    def commit(self):
        """ a commit of hostile requests; what it made of the repository has to be exactly what was accepted """
        ctx = self.ctx; rng = self.rng
        w = self.connect()
        old = dict(self.hist.files)
        try:
            h, partial = w.begin(self.hist.head)
            ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
            if partial: ctx.check(w.delete([p['path'] for p in partial])['status'] == 'ok', 'delete is refused')
        except WireError: raise
        put = {}; gone = set(); asked = set()
        broken = False
        for _ in range(rng.choice([2, 5])):
            what = rng.choice(['push', 'push', 'push', 'delete', 'good', 'read'])
            try:
                if what == 'read':
                    before = self.world.server.pid
                    nw = self.reads(w)
                    if nw is not w: w = nw; broken = True; break
                elif what == 'good':
                    p = '/good%d' % rng.randrange(20); d = gen.unique(rng)
                    if not gen.compatible(p, set(old) | set(put)): continue
                    ctx.check(w.push(p, d)['status'] == 'ok', 'an ordinary file is refused next to hostile ones', p); put[p] = d
                elif what == 'push':
                    kind, p = self.bad_path()
                    if kind == 'long' and rng.random() < 0.7: continue
                    if any(o != p and (o.startswith(p + '/') or p.startswith(o + '/')) for o in set(old) | set(put)): continue
                    d = gen.unique(rng)
                    ctx.note('push', kind, repr(p)[:200])
                    ctx.count('push_requests')
                    h = w.push(p, d)
                    self.no_secret('push', h)
                    ctx.count('push_accepted' if h['status'] == 'ok' else 'push_refused')
                    if h['status'] == 'ok': put[p] = d; gone.discard(p)
                    ctx.evaluated(('push', kind, h['status']))
                elif what == 'delete':
                    kind, p = self.bad_path()
                    good = rng.choice(sorted(set(old) - {'/.bvn_ignore'})) if len(old) > 1 and rng.random() < 0.5 else None # without that file, /.shttpfs_ignore is taken for its former name, and renamed
                    item = {'path' : p}
                    lists = [[item], [item, {'path' : good}] if good else [item], [{'path' : good}, item] if good else [item], [dict(item, hash = '../decoy')], [{'path' : p, 'status' : 'new'}], [{}], [p], 'text', {}, {'path' : p}, None, [None], [[p]], [{'path' : None}], [{'path' : 7}], [{'path' : [p]}],
                             [{'path' : good or p, 'hash' : '/../../decoy', 'created' : -1}]]
                    l = rng.choice(lists)
                    ctx.note('delete', repr(l)[:300]); ctx.count('delete_requests')
                    asked |= {x['path'] for x in l if isinstance(x, dict) and isinstance(x.get('path'), str)} if isinstance(l, list) else set()
                    raw = json.dumps({'files' : rng.choice([json.dumps(l), json.dumps(l), json.dumps(l), l, '{', '']) if l is not None else None}).encode()
                    h = w.req('delete_files', w.base(), raw)[0]
                    self.no_secret('delete', h)
                    ctx.evaluated(('delete', kind, type(l).__name__, h['status']))
            except WireError as e:
                ctx.check(not e.slow, 'no answer to a hostile request', what)
                broken = True; break
            self.check_accesses(what)
        if broken:
            w.close(); self.world.wait_unlocked('repo')
            w = self.connect()
            ctx.check(w.get_head() == self.hist.head, 'a commit that was broken off is visible')
            h, partial = w.begin(self.hist.head)
            ctx.check(h['status'] == 'ok', 'the repository is blocked after a hostile request', h)
            ctx.check(w.abort()['status'] == 'ok', 'abort is refused')
            w.close(); self.world.wait_unlocked('repo')
            self.check_accesses('abort')
            return
        try: h = w.commit('hostile')
        except WireError: # more than it can take; nothing of it may be there
            w.close(); self.world.wait_unlocked('repo')
            w = self.connect(); ctx.check(w.get_head() == self.hist.head, 'a commit that was broken off is visible')
            h, partial = w.begin(self.hist.head)
            ctx.check(h['status'] == 'ok' and w.abort()['status'] == 'ok', 'the repository is blocked after a hostile commit', h)
            w.close(); self.world.wait_unlocked('repo'); return
        self.check_accesses('commit')
        ctx.check(h['status'] == 'ok', 'a commit is refused', h)
        listed = w.list_files()
        ctx.check(listed is not None, 'the head can not be listed after a hostile commit')
        got = {p : i['hash'] for p, i in listed.items()}
        for p, d in put.items():
            if p in asked: continue # order matters there, judged by what is left
            ctx.check(got.get(p) == sha(d), 'a file that was accepted is not there under its name', (p, sorted(got)))
        for p in got: ctx.check(p in put and got[p] == sha(put[p]) or p in old and got[p] == sha(old[p]), 'a hostile commit stored something under another name, or changed another file', p)
        for p in old: ctx.check(p in got or p in asked, 'a hostile commit removed a file nobody asked to remove', p)
        new = {p : (put[p] if p in put and sha(put[p]) == got[p] else old[p]) for p in got}
        for p in new:
            h2, b = w.pull(p)
            ctx.check(b == new[p], 'a file can not be fetched after a hostile commit', (p, h2))
        if h['head'] != self.hist.head:
            changes = {c['path'] : c['status'] for c in w.list_changes(h['head'])}
            self.hist.add(h['head'], 'bob', 'hostile', files = new, changes = changes)
        self.contents |= set(new.values())
        self.hostile = getattr(self, 'hostile', set()) | set(put.values())
        w.close(); self.world.wait_unlocked('repo')

    def victim(self, wc):
        """ another user updates """
        ctx = self.ctx; rng = self.rng
        log = ctx.dir + '/victim.access'
        if os.path.exists(log): os.remove(log)
        conf = wc.config()
        around = {p : open(p, 'rb').read() for p in self.decoys}
        r = self.world.cli(wc, 'update', *(['-f'] if rng.random() < 0.2 else []), src = '127.250.6.1', before = confine([wc.path], [], log))
        acc = accesses(log)
        ctx.check(not acc, 'the update of another user reaches outside of its working copy', acc[:5])
        ctx.check(wc.config() == conf, 'the private configuration of another user was changed')
        for n in ('x', 'x/y', 'y', 'z', 'journal/x', 'client_configuration.json', 'manifest.db', 'lock_file', 'conflict_resolution'):
            full = wc.path + '/.bvn/' + n
            if not os.path.isfile(full): continue
            with open(full, 'rb') as f: t = f.read()
            ctx.check(not any(h in t for h in getattr(self, 'hostile', ())), 'a commit wrote into the private metadata of another user', full)
        ctx.check(not os.path.lexists(wc.path + '/.bvn_pull_ignore'), 'a commit wrote the private filters of another user')
        storable = all(len(c.encode()) < 256 for p in self.hist.files for c in p.split('/'))
        if storable:
            ctx.check(r.ok, 'the update of another user fails after hostile commits: %r' % r, r.extra.get('tb') or r.out[-500:])
            t = wc.tree()
            ctx.check(t == self.hist.files, 'the working copy of another user does not hold what was committed', sorted(set(t) ^ set(self.hist.files)))
        else:
            ctx.check(r.kind == 'done', 'update: %r' % r)
        for p, d in around.items(): ctx.check(open(p, 'rb').read() == d, 'a file outside of all was changed', p)
        ctx.count('victim_updates')
        ctx.evaluated(('update', len(self.hist.revs), storable))

def case(ctx):
    rng = ctx.rng
    c = Case(ctx)
    wc = c.world.new_wc('victim', 'ann', 'repo')
    if rng.random() < 0.5: c.victim(wc)
    for _ in range(3 if ctx.quick else 8):
        w = c.connect()
        for _ in range(5): w = c.reads(w)
        w.close()
        c.commit()
        if rng.random() < 0.6: c.victim(wc)
    c.victim(wc)
    w = c.connect()
    c.hist.verify(ctx, w, what = 'after hostile requests')
    w.close()
    c.check_accesses('reading')
    ctx.check(c.snapshot_b() == c.state_b, 'another repository was changed')
    ctx.sample({'revisions' : len(c.hist.revs), 'files' : sorted(c.hist.files)[:8]})
