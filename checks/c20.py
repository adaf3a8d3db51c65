""" the status reported by the real client compared with the files and with the server after generated edits, and after edits made between any two requests (or at any file access) of running commits and updates """
import os
from vlib import gen, diverge
from vlib.world import ordinary_user
from vlib.core import Pause
from vlib.cw import Team, Copy, parse_conflicts
from vlib.wire import sha

LEVEL = 'exploration'
RULE = ('a case lets working copies be edited in generated ways and compares the reported status with a model after every step; then it runs commits and updates during which files are written, created and removed, at a request (while the server holds it, before or after it acted) or, for commits, at a file access of the client, '
        'and commands which may not look into some directories or files (they fail, or they are right), and compares what is reported afterwards with the files on disk and the revision on the server, and finally publishes everything and compares again. An evaluation is one judged status; distinct by command, moment, kinds of edits and outcome')
ASSUMPTIONS = ['edits change the modification time', 'edits replace the content in one step', 'no local untracked file stands where an update has to create a directory, or the other way round']
REQUIRED = ['status_compared', 'edits_in_commit', 'edits_in_update', 'edits_at_file_access', 'still_reported', 'part_of_it', 'without_permission_done', 'without_permission_refused', 'updates_refused', 'converged', 'empty_after', 'from_subdirectory', 'odd_times']
QUICK_WALL = 22
THOROUGH_WALL = 700

def plan(tier): return 260 if tier == 'quick' else 4000

def parents(p):
    out = []
    while p.count('/') > 1:
        p = p.rsplit('/', 1)[0]; out.append(p)
    return out

class Run:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = ctx.rng
        self.team = Team(ctx, pool = gen.paths(ctx.rng, ctx.rng.choice([4, 6, 9])))
        self.a, self.b = self.team.copies
        self.edited = {}; self.used = set()

    # ------------------------------------------------ looking
    def server_files(self, rev):
        if rev == 'root': return {}
        l = self.team.reader.list_files(rev)
        return {p : i['hash'] for p, i in l.items()}

    def look(self, c, sub = ''):
        r = self.team.world.cli(c.wc, 'status', sub = sub)
        self.ctx.check(r.ok, 'status fails: %r' % r, r.extra.get('tb'))
        return Copy.parse_status(r.out)

    def plain(self, c):
        """ edits between commands, status from any directory """
        ctx = self.ctx; rng = self.rng; used = self.used
        for _ in range(rng.choice([2, 4])):
            c.edit(rng, self.team.pool, rng.choice([1, 2, 5]))
            if rng.random() < 0.5 and c.local: # modification times going back, or hardly differing
                p = rng.choice(sorted(c.local))
                full = c.wc.full(p); t = os.stat(full).st_mtime_ns
                n = rng.choice([t + 1000, t - 1000, t - 10**9, t + 10**15, 10**9, 1, t + 2 * 10**6, 2**31 * 10**9 + 5000]) + (len(used) + 1) * 10**4
                if n // 1000 in used: continue
                used.add(n // 1000)
                os.utime(full, ns = (n, n)); c.dirty.add(p); ctx.count('odd_times')
                ctx.note('modification time of', repr(p), t, '->', n)
            if rng.random() < 0.3 and set(c.local) - self.team.frozen: # replaced by another file
                p = rng.choice(sorted(set(c.local) - self.team.frozen)); d = gen.content(rng)
                tmp = c.wc.path + '/.bvn/replacement'
                with open(tmp, 'wb') as f: f.write(d)
                t = c.wc.times.next(); os.utime(tmp, (t, t)); os.rename(tmp, c.wc.full(p))
                c.local[p] = d; c.dirty.add(p)
            sub = ''
            if rng.random() < 0.4:
                dirs = [d for d in {p.rsplit('/', 1)[0][1:] for p in c.local} if d]
                if dirs: sub = rng.choice(sorted(dirs)); ctx.count('from_subdirectory')
            got = self.look(c, sub); want = c.status()
            ctx.check(got == want, 'the reported changes are not those that were made', {p : (got.get(p), want.get(p)) for p in set(got) | set(want) if got.get(p) != want.get(p)})
            ctx.count('status_compared')
            ctx.evaluated(('plain', tuple(sorted(want.values()))[:6], bool(sub)))

    # ------------------------------------------------ files that can not be looked at
    def unreadable(self, c):
        """ commands run while the permissions of files or directories get in the way: they fail, or they are right """
        ctx = self.ctx; rng = self.rng; team = self.team
        if rng.random() < 0.7: c.edit(rng, team.pool, rng.choice([1, 2]))
        dirs = sorted({d for p in set(c.local) for d in parents(p)})
        changed = []
        for _ in range(rng.choice([1, 1, 2])):
            if dirs and rng.random() < 0.75: p = rng.choice(dirs); modes = [0o644, 0o444, 0o644, 0o600, 0o000, 0o311, 0o111, 0o555]
            elif c.local: p = rng.choice(sorted(c.local)); modes = [0o000, 0o222, 0o444]
            else: continue
            full = c.wc.full(p); changed.append((full, os.stat(full).st_mode & 0o7777, rng.choice(modes)))
        for full, _, m in changed: os.chmod(full, m)
        try:
            want = c.status(); head = team.hist.head
            ctx.note('permissions', [(f[len(c.wc.path):], oct(m)) for f, _, m in changed])
            def run(*a, **kw):
                r = team.world.cli(c.wc, *a, before = ordinary_user, **kw); ctx.note(*a[:1], r)
                ctx.check(r.kind == 'done', a[0] + ' hangs or dies without permissions: %r' % r)
                ctx.count('without_permission_' + ('done' if r.ok else 'refused'))
                return r
            r = run('status')
            if r.ok:
                got = Copy.parse_status(r.out)
                ctx.check(got == want, 'files that can not be looked at are reported as something they are not', {p : (got.get(p), want.get(p)) for p in set(got) | set(want) if got.get(p) != want.get(p)})
            ctx.count('status_compared')
            kind = rng.choice(['commit', 'commit', 'update'])
            expected = team.expected_commit(c)[1]; plan = c.plan()
            if kind == 'commit': r = run('commit', '-m', 'm')
            else: r = run('update', answers = ['client'] * 3)
            now = team.reader.get_head()
            ctx.check(now == head or kind == 'commit', 'an update made a revision')
            if now != head:
                changes = {x['path'] : x['status'] for x in team.reader.list_changes(now)}
                ctx.check(changes == expected, 'what could not be looked at was committed as something it is not', {p : (changes.get(p), expected.get(p)) for p in set(changes) | set(expected) if changes.get(p) != expected.get(p)})
            elif kind == 'commit' and r.ok: ctx.check(not want, 'a commit ends well and commits nothing', want)
        finally:
            for full, m, _ in reversed(changed):
                if os.path.lexists(full): os.chmod(full, m)
        self.edited = {}
        self.look(c) # finishes what was interrupted
        touched = set() if kind == 'commit' or r.ok else set(plan.pull) | set(plan.delete) # an update that failed may have written them already
        self.judge(c, r, kind + ' without permission', kind == 'commit' and r.ok and now != head, set(want) | touched, want if kind == 'update' else ())
        if r.ok and kind == 'update': ctx.check((c.wc.meta() or ('root',))[0] == head, 'an update without permission ends well, but another revision is recorded')
        mine = c.wc.tree()
        for p in want:
            if p in c.local: ctx.check(p in mine and mine[p] == c.local[p], kind + ' without permission: a local change is gone', p)
        self.adopt(c, 'm')
        ctx.evaluated(('permissions', kind, r.ok, tuple(sorted((oct(m), os.path.isdir(f)) for f, _, m in changed))))

    # ------------------------------------------------ edits in running commands
    def mid_edit(self, c, allowed = None):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 3])):
            tree = c.wc.tree()
            k = rng.choice(['write', 'write', 'remove', 'create', 'same', 'longer', 'shorter'])
            targets = sorted(set(tree) & (set(self.team.pool) | set(self.team.hist.files) | set(c.manifest)))
            if k == 'create' or not targets:
                p = rng.choice(self.team.pool + ['/mid%d' % rng.randrange(4)])
                if p in tree or not gen.compatible(p, set(tree) | set(self.team.hist.files)): continue
                if os.path.isdir(c.wc.full(p)): continue
                d = gen.unique(rng)
            else:
                p = rng.choice(targets)
                if p == '/.bvn_ignore': continue
                if k == 'remove':
                    c.wc.remove(p, rng.random() < 0.5); self.edited[p] = None
                    self.ctx.note('removed meanwhile', repr(p)); continue
                d = {'write' : gen.unique(rng), 'create' : gen.unique(rng), 'same' : tree[p], 'longer' : tree[p] + gen.unique(rng), 'shorter' : tree[p][:len(tree[p]) // 2]}[k]
            c.wc.write(p, d); self.edited[p] = d
            self.ctx.note('written meanwhile', k, repr(p))

    def judge(self, c, r, what, done, before, keep = ()):
        """ after a command with edits: nothing that differs may be unreported """
        ctx = self.ctx
        disk = {p : sha(d) for p, d in c.wc.tree().items()}
        rev, man = c.wc.meta() or ('root', {})
        got = self.look(c)
        have = self.server_files(rev); head = self.server_files(self.team.reader.get_head())
        for p, h in man.items():
            ctx.check(h in (have.get(p), head.get(p)) or p in got, what + ': the client takes a file for synchronised which the server does not have like that', (p, h))
        if done:
            ctx.check(rev == self.team.reader.get_head(), what + ': it ended well, but another revision is recorded', rev)
            ctx.check(man == have, what + ': it ended well, but the records differ from the revision', {p : (man.get(p), have.get(p)) for p in set(man) | set(have) if man.get(p) != have.get(p)})
        must = {p for p in set(disk) | set(man) if disk.get(p) != man.get(p) and not c.ignored(p)}
        for p in must:
            kind = 'deleted' if p not in disk else 'new' if p not in man else 'changed'
            ctx.check(got.get(p) == kind, what + ': a file differs from what the server has and is not reported', (p, got.get(p), kind, p in self.edited))
        for p in got:
            ctx.check(p in must or p in self.edited or p in keep or (not done and p in before), what + ': a file nobody changed is reported', (p, got[p]))
        for p in self.edited:
            if p in must: ctx.count('still_reported')
            else: ctx.count('part_of_it')
        # what the user wrote is still there
        for p, d in self.edited.items():
            if d is not None: ctx.check(disk.get(p) == sha(d), what + ': what was written meanwhile is gone', (p, None if p not in disk else 'other content'))
        ctx.count('status_compared')

    def moment(self, c, command):
        """ -> keyword arguments for the command, under which it is interrupted by edits """
        rng = self.rng
        self.edited = {}; self.fired = 0
        server = self.team.world.server
        def on_event(msg):
            self.fired += 1
            self.mid_edit(c)
        if command == 'commit' and rng.random() < 0.4:
            def cb():
                self.fired += 1; self.mid_edit(c)
            self.kind = 'access'
            self.pause = Pause(cb, rng.randrange(rng.choice([4, 15, 60])), reads = True, only = rng.choice([(), ('read',), ('read',)]))
            return {'pause' : self.pause, 'watch' : [c.wc.path]}
        self.pause = None
        self.kind = rng.choice(['call', 'call_after'])
        server.on_event = on_event
        n = rng.sample(range(12), rng.choice([1, 1, 2]))
        if rng.random() < 0.5: rules = [{'n' : i, 'do' : self.kind} for i in n]
        else: rules = [{'action' : rng.choice(['push_file', 'pull_file', 'find_changed', 'begin_commit', 'commit', 'delete_files']), 'nth' : rng.choice([0, 0, 1, 2]), 'do' : self.kind}]
        server.rules(rules)
        self.rules = rules
        return {}

    def end_moment(self, command):
        if self.pause is not None:
            if self.pause.fired: self.ctx.count('edits_at_file_access', len(self.edited))
            self.pause.close()
        self.team.world.server.rules([]); self.team.world.server.on_event = None
        self.ctx.count('edits_in_' + command, len(self.edited))

    def commit(self, c):
        ctx = self.ctx
        before = c.status()
        head = self.team.hist.head
        r = self.team.world.cli(c.wc, 'commit', '-m', 'm', **self.moment(c, 'commit'))
        self.end_moment('commit')
        ctx.note('commit', r, self.kind, 'edited', sorted(self.edited))
        ctx.check(r.kind == 'done', 'the commit hangs or dies: %r' % r)
        now = self.team.reader.get_head()
        done = now != head
        if not before and not self.edited: ctx.check(not done, 'nothing was committed as a revision')
        if not self.edited: ctx.check(r.ok and done == bool(self.team.expected_commit(c)[1]), 'a commit fails: %r' % r, r.extra.get('tb') or r.out[-500:])
        self.judge(c, r, 'commit with edits meanwhile', done, before)
        self.adopt(c, 'm')
        ctx.evaluated(('commit', self.kind, self.fired, done, tuple(sorted('x' if d is None else 'w' for d in self.edited.values()))))

    def update(self, c):
        ctx = self.ctx; rng = self.rng
        before = c.status()
        p = c.plan()
        choice = 'client'
        kw = self.moment(c, 'update')
        r = self.team.world.cli(c.wc, 'update', answers = [choice] * 3, **kw)
        self.end_moment('update')
        ctx.note('update', r, self.kind, 'edited', sorted(self.edited))
        ctx.check(r.kind == 'done', 'the update hangs or dies: %r' % r)
        ctx.check(r.exc in (None, 'SystemExit'), 'an update during which files change ends in %r' % r, r.extra.get('tb'))
        if not self.edited: ctx.check(r.ok, 'an update fails: %r' % r, r.out[-500:])
        if not r.ok: ctx.count('updates_refused')
        disk = {f : sha(d) for f, d in c.wc.tree().items()}
        rev, man = c.wc.meta() or ('root', {})
        got = self.look(c)
        have = self.server_files(rev); head = self.server_files(self.team.reader.get_head())
        for f, h in man.items():
            old = c.manifest.get(f)
            ctx.check(h in (old, head.get(f)) or f in got, 'update: the client takes a file for synchronised which the server does not have like that', (f, h))
        must = {f for f in set(disk) | set(man) if disk.get(f) != man.get(f) and not c.ignored(f)}
        for f in must:
            kind = 'deleted' if f not in disk else 'new' if f not in man else 'changed'
            ctx.check(got.get(f) == kind, 'update with edits meanwhile: a file differs from what is recorded and is not reported', (f, got.get(f), kind, f in self.edited))
        for f in got: ctx.check(f in must or f in self.edited or f in before, 'update with edits meanwhile: a file nobody changed is reported', (f, got[f]))
        for f, d in self.edited.items():
            if f in must: ctx.count('still_reported')
            else: ctx.count('part_of_it')
            if d is not None: ctx.check(disk.get(f) == sha(d), 'update: what was written meanwhile is gone', (f, None if f not in disk else 'other content'))
        if r.ok:
            ctx.check(rev == self.team.reader.get_head(), 'update: it ended well, but another revision is recorded', rev)
            for f in set(head) - set(got) - set(p.conflicts): ctx.check(disk.get(f) == head[f], 'update: it ended well, but a file is neither what the server has nor reported', f)
        ctx.count('status_compared')
        ctx.evaluated(('update', self.kind, self.fired, r.ok, len(p.pull), len(p.delete), tuple(sorted('x' if d is None else 'w' for d in self.edited.values()))))
        self.adopt(c, None)

    def adopt(self, c, msg):
        """ the model continues with what is there """
        hist = self.team.hist
        head = self.team.reader.get_head()
        if head != hist.head:
            files = {}
            for p in self.server_files(head): files[p] = self.team.world.fetch(self.team.reader, head, p)[0]
            changes = {x['path'] : x['status'] for x in self.team.reader.list_changes(head)}
            hist.add(head, c.user, msg, files = files, changes = changes)
        rev, man = c.wc.meta() or ('root', {})
        c.local = c.wc.tree(); c.manifest = dict(man)
        c.base = next((i for i, x in enumerate(hist.revs) if x.id == rev), -1)
        c.dirty = {p for p, s in self.look(c).items() if s == 'changed'}

    def settle(self, c):
        """ everything is published; the head is what the user has """
        ctx = self.ctx
        for i in range(6):
            if not c.status() and c.base == len(self.team.hist.revs) - 1: break
            r = self.team.world.cli(c.wc, 'update', answers = ['client'] * 3)
            ctx.check(r.ok, 'an update after edits fails: %r' % r, r.extra.get('tb') or r.out[-600:])
            self.edited = {}
            self.adopt(c, None)
            r = self.team.world.cli(c.wc, 'commit', '-m', 'settle')
            ctx.check(r.ok, 'a commit after edits fails: %r' % r, r.extra.get('tb') or r.out[-600:])
            self.adopt(c, 'settle')
        got = self.look(c)
        ctx.check(not got, 'changes are reported right after a successful commit', got)
        ctx.count('empty_after')
        mine = {p : d for p, d in c.wc.tree().items() if not c.ignored(p)}
        ctx.check(mine == self.team.hist.files, 'a local change was silently taken as synchronised', {p : (p in mine, p in self.team.hist.files) for p in set(mine) | set(self.team.hist.files) if mine.get(p) != self.team.hist.files.get(p)})
        ctx.count('converged')

def case(ctx):
    rng = ctx.rng
    run = Run(ctx); team = run.team; a, b = run.a, run.b
    if rng.random() < 0.3:
        a.write('/.bvn_ignore', rng.choice([b'*.tmp', b'/build/*\n*.o', b'*[0-9].log'])); team.frozen.add('/.bvn_ignore'); team.commit(a)
        team.pool += ['/t.tmp', '/build/a', '/x1.log'] + rng.sample(['/T.TMP', '/Build/a', '/X1.Log', '/a.O', '/x.log', '/t.tmpx', '/sub/build/b', '/buildx'], 4); team.update(b)
    diverge.base(ctx, team)
    for _ in range(2 if ctx.quick else 5):
        c = rng.choice([a, b]); o = b if c is a else a
        if rng.random() < 0.4: run.plain(c)
        if rng.random() < 0.4:
            diverge.server_side(ctx, team, o, 0.5, 1) if rng.random() < 0.4 and not o.status() and not o.plan() else None
            run.unreadable(c); run.settle(c)
        kind = rng.choice(['commit', 'update'])
        if kind == 'commit':
            team.update(c, 'client' if c.plan().conflicts else None)
            c.edit(rng, team.pool, rng.choice([1, 2, 4]))
            run.commit(c)
        else:
            team.update(o, 'client' if o.plan().conflicts else None)
            if rng.random() < 0.5: run.settle(o)
            diverge.server_side(ctx, team, o, 0.5, 1)
            blocked = False
            if rng.random() < 0.5: c.edit(rng, team.pool, rng.choice([1, 2]))
            p = c.plan()
            if any(not gen.compatible(x, c.local) for x in list(p.pull) + [x for x in p.conflicts if x in team.hist.files]): ctx.count('left_out'); continue
            run.update(c)
        run.settle(c)
    ctx.sample({'revisions' : len(team.hist.revs), 'pool' : team.pool[:6]})
