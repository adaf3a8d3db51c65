""" A random life of one repository on the server: everything that can happen to it, over the wire, with a model """
import os, random, json
from vlib import gen
from vlib.core import KILL, HALF_KILL, OPS, Violation
from vlib.hist import Hist, client_commit, expected, adopt_head, do_ops
from vlib.wire import WireError, sha
from vlib.world import run_repo

def changeset(rng, files, pool, n, big = 0.02, empty_ok = False):
    puts = {}; deletes = []
    for _ in range(n):
        if files and rng.random() < 0.3:
            p = rng.choice(sorted(files))
            if p not in puts and p not in deletes: deletes.append(p)
        else:
            p = rng.choice(sorted(files)) if files and rng.random() < 0.35 else rng.choice(pool)
            if p in deletes or not gen.compatible(p, list(files) + list(puts)): continue
            data = gen.content(rng, big = big)
            if files and rng.random() < 0.1: data = files[rng.choice(sorted(files))]
            puts[p] = data
    if not puts and not deletes and not empty_ok:
        p = rng.choice(sorted(files)) if files else pool[0]
        puts[p] = gen.unique(rng)
    return puts, deletes

class Life:
    WHO = [('ann', '127.250.0.2'), ('bob', '127.250.0.3'), ('ann', '127.250.0.4'), ('bob', '127.250.0.2')]

    def __init__(self, ctx, world, repo = None, rng = None, pool = None):
        self.ctx = ctx; self.world = world; self.rng = rng or ctx.rng
        self.repo = repo or next(iter(world.store))
        self.hist = Hist()
        self.pool = pool or gen.paths(self.rng, self.rng.choice([5, 8, 12]))
        self.pending = None          # (who, src, base, puts, deletes) of an attempt that may be resumed
        self.trace = []
        self.n = 0

    def connect(self, who, src): return self.world.wire(self.repo, who, src)

    def random_who(self): return self.rng.choice(self.WHO)

    # ------------------------------------------------ events, each returns its name
    def commit(self, who = None, size = None):
        who, src = who or self.random_who()
        puts, deletes = changeset(self.rng, self.hist.files, self.pool, size or self.rng.choice([1, 2, 3, 5]))
        self.n += 1
        msg = self.rng.choice(['', 'c%d' % self.n, 'rev %d' % self.n])
        last = self.hist.revs[-1] if self.hist.revs else None
        if last is not None and self.rng.random() < 0.15 and any(s != 'deleted' for s in last.changes.values()):
            # the same files once more, by the same user, who has nothing new to say about it
            who = last.by; src = self.rng.choice([s for u, s in self.WHO if u == who] or [src]); msg = last.msg
            puts = {p : gen.unique(self.rng) for p, s in last.changes.items() if s != 'deleted'}; deletes = []
            self.ctx.count('same_files_again')
        w = self.connect(who, src)
        h = client_commit(w, self.hist.head, puts, deletes, msg)
        if h['status'] != 'ok': raise Violation('a commit on the head by an allowed user is refused: ' + h.get('msg', ''))
        f, c = expected(self.hist.files, puts, deletes)
        self.hist.add(h['head'], who, msg, files = f, changes = c)
        w.close()
        self.pending = None
        return 'commit'

    def long(self, n = None):
        """ many small revisions, more than any list or walk would be limited to by accident """
        who, src = self.random_who()
        w = self.connect(who, src)
        n = n or self.rng.choice([55, 70, 105, 130])
        for _ in range(n):
            puts, deletes = changeset(self.rng, self.hist.files, self.pool, 1, big = 0)
            self.n += 1
            h = client_commit(w, self.hist.head, puts, deletes, 'long %d' % self.n)
            if h['status'] != 'ok': raise Violation('a commit on the head by an allowed user is refused: ' + h.get('msg', ''))
            f, c = expected(self.hist.files, puts, deletes)
            if not c: raise Violation('a commit without changes is published', h)
            self.hist.add(h['head'], who, 'long %d' % self.n, files = f, changes = c)
        w.close()
        self.pending = None
        self.trace.append('long %d' % n); self.ctx.count('event_long'); self.ctx.count('long_revisions', n)

    def abort(self):
        who, src = self.random_who()
        puts, deletes = changeset(self.rng, self.hist.files, self.pool, self.rng.choice([1, 2, 4]))
        w = self.connect(who, src)
        h, partial = w.begin(self.hist.head)
        if h['status'] != 'ok': raise Violation('begin_commit on the head is refused: ' + h.get('msg', ''))
        do_ops(w, [('push', p, d) for p, d in puts.items()] + ([('delete', deletes)] if deletes else []))
        h = w.abort()
        if h['status'] != 'ok': raise Violation('an abort is refused')
        w.close(); self.pending = None
        return 'abort'

    def interrupt(self):
        who, src = self.random_who()
        puts, deletes = changeset(self.rng, self.hist.files, self.pool, self.rng.choice([1, 2, 4]))
        w = self.connect(who, src)
        client_commit(w, self.hist.head, puts, deletes, 'never', stop_before = self.rng.randrange(1, len(puts) + 3))
        if self.rng.random() < 0.3: # in the middle of an upload
            w.send_raw(w.preamble('push_file', w.base(path = '/cut'), 1000) + b'x' * 500)
        finished = False
        # client_commit may have gone through if it needed fewer requests
        w.close()
        r = self.world.wire(self.repo, 'ann', '127.250.0.9')
        f, c = expected(self.hist.files, puts, deletes)
        if adopt_head(self.ctx, r, self.hist, [(who, 'never', f, c)], 'interrupted'): finished = True
        r.close()
        self.pending = None if finished else (who, src, puts, deletes)
        self.wait_unlocked()
        return 'interrupt'

    def wait_unlocked(self):
        self.world.wait_unlocked(self.repo)

    def resume(self):
        if self.pending is None: return self.commit()
        who, src, puts, deletes = self.pending
        if self.rng.random() < 0.4:
            p2, d2 = changeset(self.rng, self.hist.files, self.pool, 2)
            puts = {p : d for p, d in {**puts, **p2}.items() if self.rng.random() < 0.85}
            deletes = [d for d in set(deletes) | set(d2) if d not in puts]
            ok = []
            for p in list(puts):
                if gen.compatible(p, list(self.hist.files) + ok): ok.append(p)
                else: puts.pop(p)
        if not puts and not deletes: puts, deletes = changeset(self.rng, self.hist.files, self.pool, 2)
        deletes = sorted(d for d in deletes if d in self.hist.files)
        w = self.connect(who, src)
        self.n += 1
        h = client_commit(w, self.hist.head, puts, deletes, 'resumed %d' % self.n)
        w.close()
        if h['status'] != 'ok': raise Violation('a resumed commit is refused: ' + h.get('msg', ''))
        f, c = expected(self.hist.files, puts, deletes)
        self.pending = None
        if not c: return 'resume-empty'
        self.hist.add(h['head'], who, 'resumed %d' % self.n, files = f, changes = c)
        return 'resume'

    def outdated(self):
        who, src = self.random_who()
        w = self.connect(who, src)
        wrong = [r.id for r in self.hist.revs[:-1]] + (['root'] if self.hist.revs else []) + ['0' * 64, 'nonsense']
        h, _ = w.begin(self.rng.choice(wrong))
        if h['status'] == 'ok': raise Violation('begin_commit on another revision than the head is accepted')
        # without a commit in progress nothing may have an effect
        for _ in range(self.rng.randrange(3)):
            r = self.rng.randrange(3)
            if r == 0: h = w.push('/sneaked', b'in')
            elif r == 1: h = w.delete(sorted(self.hist.files)[:1])
            else: h = w.commit('sneaked')
            if h['status'] == 'ok': raise Violation('an operation without a commit in progress is accepted', h)
        w.close(); self.pending = None
        return 'outdated'

    def garbage_request(self):
        """ requests that fail inside a commit, or break the connection """
        who, src = self.random_who()
        w = self.connect(who, src)
        w.begin(self.hist.head)
        try:
            r = self.rng.randrange(6)
            if r == 0: w.push(self.rng.choice(['relative', '/a/../b', '', '/x//y', '/.bvn/z', '/.', '/a/']), b'bad')
            elif r == 1: w.req('delete_files', w.base(), b'not json')
            elif r == 2: w.req('delete_files', w.base(), json.dumps({'files' : json.dumps([{'nopath' : 1}])}).encode())
            elif r == 3: w.req('commit', w.base(), b'{}')
            elif r == 4: w.req('no_such_action', w.base(), b'{}')
            else: w.req('push_file', w.base(), b'no path')
        except WireError: pass
        try: w.abort()
        except WireError: pass
        w.close(); self.pending = None
        self.wait_unlocked()
        return 'garbage'

    def crash(self):
        """ the server dies during a commit """
        who, src = self.random_who()
        puts, deletes = changeset(self.rng, self.hist.files, self.pool, self.rng.choice([1, 2, 4]))
        self.n += 1
        w = self.connect(who, src)
        self.world.server.arm(self.rng.randrange(160), self.rng.choice([KILL, HALF_KILL]), 0)
        try: h = client_commit(w, self.hist.head, puts, deletes, 'crash %d' % self.n)
        except WireError: h = None
        w.close()
        if self.world.server.alive(): self.world.server.disarm()
        elif not self.world.server.start(): raise Violation('the server does not start after a crash')
        r = self.world.wire(self.repo, 'ann', '127.250.0.9')
        f, c = expected(self.hist.files, puts, deletes)
        moved = adopt_head(self.ctx, r, self.hist, [(who, 'crash %d' % self.n, f, c)], 'after a crash')
        r.close()
        if h is not None and h['status'] == 'ok' and not moved: raise Violation('an acknowledged commit is lost')
        self.pending = None if moved else (who, src, puts, deletes)
        return 'crash'

    def uncleaned(self):
        """ the server dies when a commit is visible already but what was noted about it is still there """
        who, src = self.random_who()
        puts = {}; name = '/uncleaned%d' % self.rng.randrange(1000)
        if not gen.compatible(name, self.hist.files): return 'tick'
        puts = {name : gen.unique(self.rng)}
        self.n += 1
        msg = 'uncleaned %d' % self.n
        w = self.connect(who, src)
        server = self.world.server
        h, partial = w.begin(self.hist.head)
        if h['status'] != 'ok': raise Violation('begin_commit on the head is refused: ' + h.get('msg', ''))
        if partial:
            w.abort(); h, _ = w.begin(self.hist.head)
            if h['status'] != 'ok': raise Violation('begin_commit on the head is refused: ' + h.get('msg', ''))
        for p, d in puts.items(): w.push(p, d)
        server.ask('only', 1 << OPS.index('unlink'), '.db-journal'); server.arm(self.rng.choice([2, 3, 3, 3]), KILL)
        try: h = w.commit(msg)
        except WireError: h = None
        w.close()
        if server.alive(): server.disarm(); server.ask('only', 0, '')
        elif not server.start(): raise Violation('the server does not start after a crash')
        r = self.world.wire(self.repo, 'ann', '127.250.0.9')
        f, c = expected(self.hist.files, puts, [])
        moved = adopt_head(self.ctx, r, self.hist, [(who, msg, f, c)], 'after a crash')
        r.close()
        if h is not None and h['status'] == 'ok' and not moved: raise Violation('an acknowledged commit is lost')
        if moved and h is None: self.ctx.count('published_not_cleaned')
        self.pending = None if moved else (who, src, puts, [])
        return 'uncleaned'

    def gc(self):
        res = run_repo({'repositories' : {self.repo : self.world.config['repositories'][self.repo]}}, 'gc')
        if not res.ok: raise Violation('garbage collection fails: %r' % res, res.extra.get('tb'))
        return 'gc'

    def restart(self):
        self.world.server.kill()
        if not self.world.server.start(): raise Violation('the server does not start')
        return 'restart'

    def tick(self):
        return 'tick'

    def event(self, names):
        name = self.rng.choice(names)
        done = getattr(self, name)()
        self.trace.append(done)
        self.ctx.note(done, 'head', self.hist.head[:12], 'revs', len(self.hist.revs))
        self.ctx.count('event_' + done)
        return done
