""" Working copies driven by the real client, next to a reference model of what each of them has to look like """
import os, json, fnmatch
from vlib import gen
from vlib.core import Violation
from vlib.hist import Hist, client_commit, expected
from vlib.wire import sha, WireError
from vlib.world import World

class Plan:
    """ what an update has to do """
    def __init__(self): self.pull = {}; self.delete = []; self.conflicts = {}; self.forget = []

class Copy:
    """ A working copy and its model:
        local     {path: bytes}  everything on disk
        manifest  {path: sha}    what the client knows to be on the server
        dirty     paths written since they were synchronised
        base      index into hist.revs of the revision it has, -1: root """
    def __init__(self, team, name, user, repo = None):
        self.team = team; self.name = name; self.user = user; self.ctx = team.ctx
        self.wc = team.world.new_wc(name, user, repo)
        self.local = {}; self.manifest = {}; self.dirty = set(); self.base = -1
        self.pull_filters = []

    @property
    def filters(self):
        """ the lines of .bvn_ignore, which is a file like any other for everything else """
        return [l for l in self.local.get('/.bvn_ignore', b'').decode('utf8').split('\n') if l]

    # ------------------------------------------------ the user
    def write(self, p, data):
        self.wc.write(p, data)
        self.local[p] = data; self.dirty.add(p)
        self.ctx.note(self.name, 'writes', repr(p), len(data))

    def content(self, rng):
        """ sometimes what is, or was, somewhere else """
        if rng.random() < 0.8: return gen.content(rng)
        where = [c.local for c in self.team.copies] + [r.files for r in self.team.hist.revs[-3:]]
        data = [d for x in where for _, d in sorted(x.items()) if isinstance(d, bytes) and len(d) < 100000]
        if not data: return gen.content(rng)
        self.ctx.count('copied_contents')
        return rng.choice(data)

    def remove(self, p, prune = True):
        self.wc.remove(p, prune)
        del self.local[p]; self.dirty.discard(p)
        self.ctx.note(self.name, 'removes', repr(p))

    def ignored(self, p):
        return p.startswith('/.bvn/') or p == '/.bvn_pull_ignore' or any(fnmatch.fnmatch(p, f) for f in self.filters + self.pull_filters)

    def pull_ignored(self, p): return any(fnmatch.fnmatch(p, f) for f in self.pull_filters)

    def status(self):
        out = {}
        for p in self.local:
            if self.ignored(p): continue
            if p not in self.manifest: out[p] = 'new'
            elif p in self.dirty: out[p] = 'changed'
        for p in self.manifest:
            if (p not in self.local or self.ignored(p)) and not self.pull_ignored(p): out[p] = 'deleted'
        return out

    def edit(self, rng, pool, n = 1, kinds = ('write', 'write', 'modify', 'modify', 'remove', 'touch')):
        for _ in range(n):
            k = rng.choice(kinds)
            have = sorted(p for p in self.local)
            if k in ('modify', 'remove', 'touch') and not have: k = 'write'
            if k == 'write':
                p = rng.choice(pool)
                if not gen.compatible(p, self.local): continue
                self.write(p, self.content(rng))
            elif k == 'modify': 
                p = rng.choice(have)
                if p in self.team.frozen: continue
                self.write(p, self.content(rng))
            elif k == 'touch':
                p = rng.choice(have)
                if p in self.team.frozen: continue
                self.write(p, self.local[p])
            else:
                p = rng.choice(have)
                if p in self.team.frozen: continue
                self.remove(p, prune = rng.random() < 0.6)
            self.ctx.count('edit_' + k)

    # ------------------------------------------------ the model of update
    def plan(self, full = False, status = None):
        hist = self.team.hist
        status = self.status() if status is None else status
        head = hist.files
        server = {}
        for r in hist.revs[self.base + 1:]: server.update(r.changes)
        plan = Plan()
        for p, s in server.items():
            st = status.get(p)
            if s in ('new', 'changed'):
                if st: plan.conflicts[p] = ('Deleted' if st == 'deleted' else 'Changed', 'Changed')
                elif not self.pull_ignored(p): plan.pull[p] = head[p]
            else:
                if st in ('new', 'changed'): plan.conflicts[p] = ('Changed', 'Deleted')
                elif st == 'deleted': plan.forget.append(p)
                elif self.pull_ignored(p): plan.forget.append(p)
                else: plan.delete.append(p)
        if full:
            for p, d in head.items():
                if p in server or self.pull_ignored(p): continue
                if p not in status and self.manifest.get(p) != sha(d): plan.pull[p] = d
        return plan

    def apply(self, plan, choice):
        """ choice: 'server' | 'client' | {path: side} """
        head = self.team.hist.files
        pull = dict(plan.pull); delete = list(plan.delete)
        for p, (c, s) in plan.conflicts.items():
            side = choice if isinstance(choice, str) else choice[p]
            if side == 'server':
                if s == 'Changed': pull[p] = head[p]
                else: delete.append(p)
            elif s == 'Changed': self.manifest[p] = sha(head[p]); self.dirty.add(p) # it replaces what the server has
            else: self.manifest.pop(p, None); self.dirty.discard(p)
        for p in plan.forget: self.manifest.pop(p, None)
        for p in delete:
            self.manifest.pop(p, None); self.local.pop(p, None); self.dirty.discard(p)
        for p, d in pull.items():
            self.local[p] = d; self.manifest[p] = sha(d); self.dirty.discard(p)
        self.base = len(self.team.hist.revs) - 1

    # ------------------------------------------------ comparisons
    def check_disk(self, what, ignoring = ()):
        tree = self.wc.tree()
        if tree != self.local:
            diff = {p : (None if p not in tree else len(tree[p]), None if p not in self.local else len(self.local[p]))
                    for p in set(tree) | set(self.local) if tree.get(p) != self.local.get(p)}
            raise Violation('%s: the files of working copy %s are not what they have to be (path: (size there, size expected))' % (what, self.name), diff)
        self.ctx.count('trees_compared')

    def check_meta(self, what):
        meta = self.wc.meta()
        hist = self.team.hist
        want = (hist.revs[self.base].id if self.base >= 0 else 'root', self.manifest)
        if meta is None: meta = ('root', {})
        if meta[0] != want[0]: raise Violation('%s: working copy %s records revision %s, expected %s' % (what, self.name, meta[0], want[0]))
        if meta[1] != want[1]:
            raise Violation('%s: the records of working copy %s are wrong' % (what, self.name),
                            {p : (meta[1].get(p), want[1].get(p)) for p in set(meta[1]) | set(want[1]) if meta[1].get(p) != want[1].get(p)})
        self.ctx.count('records_compared')

    @staticmethod
    def parse_status(out):
        got = {}
        for line in out.split('\n'):
            for k in ('new', 'changed', 'deleted'):
                if line.startswith(k + ' : '): got[line[len(k) + 3:]] = k
        return got

    def check_status(self, what):
        r = self.team.world.cli(self.wc, 'status')
        if not r.ok: raise Violation('%s: status fails: %r' % (what, r), r.extra.get('tb'))
        got = self.parse_status(r.out); want = self.status()
        if got != want:
            raise Violation('%s: status of working copy %s is wrong' % (what, self.name),
                            {p : (got.get(p), want.get(p)) for p in set(got) | set(want) if got.get(p) != want.get(p)})
        self.ctx.count('status_compared')

    def check(self, what):
        self.check_disk(what); self.check_meta(what)

class Team:
    """ a server, a model of its history, and working copies """
    def __init__(self, ctx, copies = (('w1', 'ann'), ('w2', 'bob')), pool = None, plain = False, repos = ('repo',), **kw):
        self.ctx = ctx; self.rng = ctx.rng
        self.world = World(ctx, repos = repos, **kw)
        self.hist = Hist()
        self.frozen = set()      # paths which random edits leave alone
        self.pool = pool or gen.paths(ctx.rng, ctx.rng.choice([5, 8, 12]), plain = plain)
        self.copies = []
        for n, u in copies: self.add(n, u)

    def add(self, name, user):
        c = Copy(self, name, user); self.copies.append(c); return c

    @property
    def reader(self):
        if getattr(self, '_reader', None) is None: self._reader = self.world.wire(src = '127.250.0.9')
        return self._reader

    def drop_reader(self):
        if getattr(self, '_reader', None) is not None: self._reader.close(); self._reader = None

    def long(self, n = None):
        """ many revisions somebody else makes, without a working copy """
        rng = self.rng
        who, src = rng.choice([('ann', '127.250.0.5'), ('bob', '127.250.0.6')])
        w = self.world.wire(src = src, user = who)
        for i in range(n or rng.choice([55, 70, 105])):
            files = self.hist.files
            path = rng.choice([p for p in files if p not in self.frozen] + self.pool)
            if path in files and rng.random() < 0.3: puts, deletes = {}, [path]
            elif path in files or gen.compatible(path, files): puts, deletes = {path : gen.content(rng, big = 0)}, []
            else: continue
            h = client_commit(w, self.hist.head, puts, deletes, 'long %d' % i)
            if h['status'] != 'ok': raise Violation('a commit on the head by an allowed user is refused: ' + h.get('msg', ''))
            f, ch = expected(files, puts, deletes)
            self.hist.add(h['head'], who, 'long %d' % i, files = f, changes = ch)
        w.close()
        self.ctx.count('long_histories')

    def expected_commit(self, c, status = None):
        """ (files, changes) a commit of this working copy publishes """
        status = c.status() if status is None else status
        head = self.hist.files
        files = dict(head); changes = {}
        for p, s in status.items():
            if s == 'deleted':
                if p in files: del files[p]; changes[p] = 'deleted'
            else:
                files[p] = c.local[p]; changes[p] = 'changed' if p in head else 'new'
        return files, changes

    def commit(self, c, msg = 'm', **kw):
        """ a commit which has to do the right thing; returns True if it published """
        status = c.status()
        r = self.world.cli(c.wc, 'commit', '-m', msg, **kw)
        self.ctx.note(c.name, 'commit', r, status)
        if not status:
            if not r.ok: raise Violation('a commit without changes fails: %r' % r, r.extra.get('tb'))
            c.check('commit of nothing')
            if self.reader.get_head() != self.hist.head: raise Violation('a commit without local changes created a revision')
            self.ctx.count('commits_nothing')
            return False
        if c.base != len(self.hist.revs) - 1:
            if r.ok: raise Violation('a commit of an outdated working copy is accepted')
            if r.exc != 'SystemExit': raise Violation('an outdated commit ends in %r' % r, r.extra.get('tb'))
            c.check('refused commit')
            if self.reader.get_head() != self.hist.head: raise Violation('a refused commit created a revision')
            self.ctx.count('commits_refused')
            return False
        if not r.ok: raise Violation('a commit fails: %r' % r, r.extra.get('tb'))
        self.committed(c, msg, status)
        self.hist.verify(self.ctx, self.reader, revs = self.hist.revs[-1:], what = 'after the commit')
        c.check('commit')
        self.ctx.count('commits_published')
        return True

    def committed(self, c, msg, status = None):
        """ brings the models up to date after a successful commit """
        status = c.status() if status is None else status
        files, changes = self.expected_commit(c, status)
        head = self.reader.get_head()
        if changes:
            if head == self.hist.head: raise Violation('a successful commit created no revision', changes)
            self.hist.add(head, c.user, msg, files = files, changes = changes)
        elif head != self.hist.head: raise Violation('a commit without changes created a revision')
        for p, s in status.items():
            if s == 'deleted': c.manifest.pop(p, None)
            else: c.manifest[p] = sha(c.local[p]); c.dirty.discard(p)
        c.base = len(self.hist.revs) - 1

    def update(self, c, choice = None, full = False, **kw):
        """ an update which has to do the right thing. choice 'server' or 'client' answers conflicts """
        plan = c.plan(full)
        answers = [choice] if choice else []
        before = self.bare(c)
        r = self.world.cli(c.wc, 'update', *(['-f'] if full else []), answers = answers, **kw)
        self.ctx.note(c.name, 'update', r, 'conflicts', plan.conflicts)
        self.conflicts_reported(r, plan)
        if plan.conflicts and choice is None:
            if r.ok: raise Violation('an update with conflicts ends well without having asked')
            c.check_disk('update with unanswered conflicts')
            return r
        if not r.ok: raise Violation('an update fails: %r' % r, r.extra.get('tb'))
        c.apply(plan, choice)
        c.check('update')
        left = self.bare(c) - before
        if left: raise Violation('an update leaves directories which it emptied', sorted(left)[:5])
        self.ctx.count('updates')
        if plan.pull: self.ctx.count('updates_pulling')
        if plan.delete: self.ctx.count('updates_deleting')
        return r

    @staticmethod
    def bare(c):
        """ directories of the working copy without anything in them """
        return {d[len(c.wc.path):] for d, dirs, names in os.walk(c.wc.path) if not dirs and not names and '/.bvn' not in d[len(c.wc.path):]}

    def conflicts_reported(self, r, plan):
        got = parse_conflicts(r.out)
        if got != plan.conflicts:
            raise Violation('the reported conflicts are not those there are', {'reported' : got, 'expected' : plan.conflicts})
        if plan.conflicts:
            self.ctx.count('conflicts', len(plan.conflicts))
            if not r.extra.get('asked') and 'resolution' not in (r.msg or ''): raise Violation('conflicts were found and the user was not asked', r)

def parse_conflicts(out):
    """ {path: (client, server)} from what update prints """
    got = {}
    lines = out.split('\n')
    for i, line in enumerate(lines):
        if line.startswith('Path:  ') and i + 1 < len(lines) and lines[i + 1].startswith('Client ') and ' server ' in lines[i + 1]:
            w = lines[i + 1].split(' ')
            got[line[len('Path:  '):]] = (w[1], w[3])
    return got
