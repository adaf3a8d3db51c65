""" several repositories on one server, used, interrupted, damaged, verified, cleaned and backed up in turn and at once; each is compared with its own model and, byte for byte, with what it was before something happened to another one """
import fcntl, json, os, threading
from vlib import gen
from vlib.hist import Hist, client_commit, expected, adopt_head
from vlib.s3 import S3
from vlib.wire import WireError, sha
from vlib.world import World, run_repo
from checks.c12 import state

LEVEL = 'exploration'
RULE = ('a case has three repositories with the same paths, contents and users in one server, some with their databases elsewhere; generated steps on one of them (commits by requests and by working copies, commits held open, half sent, aborted, left and resumed, refused ones, locks held by the manager, objects lost or damaged, the server killed, verify, gc and backup of some of them), commits to two of them at the same time, '
        'and reads that go from repository to repository on one connection. After each step the others have to be byte for byte as before, usable, and what their own model says. An evaluation is one step; distinct by what it was and by what was open in itself and elsewhere')
ASSUMPTIONS = ['a connection that holds the lock of one repository is not used for others', 'one connection does not hold the locks of two repositories']
REQUIRED = ['others_unchanged', 'committed', 'committed_while_other_held', 'held', 'resumed', 'resumed_and_published', 'half_sent', 'aborted', 'outdated', 'locked_by_manager', 'damaged', 'committed_while_other_damaged', 'killed', 'verified', 'collected', 'backed_up', 'at_once', 'switched_on_one_connection', 'by_working_copy', 'same_content']
QUICK_WALL = 18
THOROUGH_WALL = 500
NEEDS_REPO_MANAGER = True

def plan(tier): return 200 if tier == 'quick' else 4000

class Held:
    def __init__(self, w, user, puts): self.w = w; self.user = user; self.puts = puts

class Run:
    def __init__(self, ctx):
        rng = ctx.rng; self.ctx = ctx; self.rng = rng
        self.names = rng.choice([('repo', 'other', 'third'), ('repo', 'repo2', 'rep'), ('a', 'A', 'a b'), ('x', 'x/y', 'y')])
        def extra(config):
            os.makedirs(ctx.dir + '/db', exist_ok = True)
            for i, r in enumerate(self.names):
                if rng.random() < 0.35: config['repositories'][r]['transient_db_path_override'] = ctx.dir + '/db/%d.db' % i; ctx.count('database_elsewhere')
        self.world = World(ctx, repos = self.names, users = ('ann', 'bob'), extra_config = extra)
        self.hist = {r : Hist() for r in self.names}
        self.held = {}; self.left = {} # repository -> Held; (user, what they sent)
        self.damaged = None
        self.pool = gen.paths(rng, 6); self.contents = [gen.unique(rng) for _ in range(4)]
        self.shared = None; self.sessions = {}
        self.wcs = {}

    SRC = {'ann' : '127.251.0.3', 'bob' : '127.251.0.4'}
    def wire(self, r, user = None): user = user or self.rng.choice(['ann', 'bob']); w = self.world.wire(r, user, self.SRC[user]); w.user = user; return w

    def puts(self):
        rng = self.rng
        out = {p : rng.choice(self.contents) if rng.random() < 0.6 else gen.unique(rng) for p in rng.sample(self.pool, rng.choice([1, 2, 3]))}
        return out

    def publish(self, r, w, puts, deletes, what):
        h = client_commit(w, self.hist[r].head, puts, deletes, what)
        self.ctx.check(h['status'] == 'ok', 'a commit is refused: ' + what, h)
        self.left.pop(r, None)
        files, changes = expected(self.hist[r].files, puts, deletes)
        self.hist[r].add(h['head'], w.user, what, files = files, changes = changes)
        if any(sha(d) in {sha(x) for o in self.names if o != r for x in self.hist[o].files.values()} for d in puts.values()): self.ctx.count('same_content')

    def state(self, r):
        path = self.world.store[r]
        return state(path)

    def look(self, r, w = None):
        """ by way of one connection for all repositories """
        ctx = self.ctx
        if self.shared is None:
            self.shared = self.world.wire(r, 'ann', '127.251.0.9'); self.sessions = {r : self.shared.session}
        w = self.shared
        if r not in self.sessions:
            ctx.check(w.login(r, 'ann', self.world.keys['ann'][1]), 'the connection used for another repository can not log in')
            self.sessions[r] = w.session
        w.session = self.sessions[r]
        if w.repo != r: ctx.count('switched_on_one_connection')
        w.repo = r
        self.hist[r].verify(ctx, w, what = 'after something happened to another repository')
        other = [o for o in self.names if o != r and self.hist[o].revs]
        if other: # its revisions are not known here
            o = self.rng.choice(other); rev = self.rng.choice(self.hist[o].revs)
            if rev.id not in {x.id for x in self.hist[r].revs}:
                try: known = w.list_files(rev.id)
                except (WireError, OSError): known = None; w.close(); self.shared = None
                ctx.check(known is None, 'a revision of another repository is served')

    def drop_shared(self):
        if self.shared is not None: self.shared.close()
        self.shared = None; self.sessions = {}

    # ------------------------------------------------ steps: each returns True if it was possible
    def commit(self, r, user = None):
        if r in self.held or self.damaged and self.damaged[0] == r: return False
        w = self.wire(r, user); files = sorted(self.hist[r].files)
        resumed = r in self.left and self.left[r][0] == w.user
        puts = self.puts(); deletes = [p for p in files if p not in puts and self.rng.random() < 0.15]
        if resumed:
            want = self.left[r][1]
            h, partial = w.begin(self.hist[r].head)
            self.ctx.check(h['status'] == 'ok', 'an interrupted commit can not be resumed', h)
            got = {f['path'] : f['hash'] for f in partial}
            self.ctx.check(got == {p : sha(d) for p, d in want.items()}, 'what is offered for resumption is not what was sent to this repository', (sorted(got), sorted(want)))
            self.ctx.count('resumed')
            if want and self.rng.random() < 0.7: puts = want; deletes = []; self.ctx.count('resumed_and_published'); w.close(); self.world.wait_unlocked(r); w = self.wire(r, w.user)
            else: w.abort()
            self.left.pop(r)
        self.publish(r, w, puts, deletes, 'm%d' % len(self.hist[r].revs)); w.close()
        self.world.wait_unlocked(r)
        self.ctx.count('committed')
        if self.held: self.ctx.count('committed_while_other_held')
        if self.damaged: self.ctx.count('committed_while_other_damaged')
        return True

    def hold(self, r):
        if r in self.held or r in self.left or self.damaged and self.damaged[0] == r: return False
        w = self.wire(r); h, _ = w.begin(self.hist[r].head)
        self.ctx.check(h['status'] == 'ok', 'a commit can not be begun while others are open elsewhere', h)
        x = Held(w, w.user, {}); self.held[r] = x; self.ctx.count('held')
        self.go_on(r)
        return True

    def go_on(self, r):
        if r not in self.held: return False
        x = self.held[r]
        for p, d in self.puts().items():
            h = x.w.push(p, d); self.ctx.check(h['status'] == 'ok', 'a file is refused while others are open elsewhere', h)
            x.puts[p] = d
        return True

    def interrupted(self, r):
        if not self.hold(r): return False
        self.finish(r, 'close'); self.manager(r, 'gc')
        return None

    def finish(self, r, how = None):
        if r not in self.held or self.damaged and self.damaged[0] == r: return False
        x = self.held.pop(r); how = how or self.rng.choice(['commit', 'abort', 'close', 'close', 'half'])
        if how == 'commit':
            h = x.w.commit('held'); self.ctx.check(h['status'] == 'ok', 'a commit held open is refused at the end', h)
            files, changes = expected(self.hist[r].files, x.puts, [])
            self.hist[r].add(h['head'], x.user, 'held', files = files, changes = changes)
        elif how == 'abort': x.w.abort(); self.ctx.count('aborted')
        else:
            if how == 'half':
                raw = x.w.preamble('push_file', x.w.base(path = '/half'), 5000) + b'x' * 1000
                x.w.send_raw(raw); self.ctx.count('half_sent')
                other = self.rng.choice([o for o in self.names if o != r])
                if not (self.damaged and self.damaged[0] == other): self.look(other) # while the server waits for the rest
            self.left[r] = (x.user, x.puts)
        x.w.close(); self.world.wait_unlocked(r)
        return True

    def outdated(self, r): # it may end what is left of an interrupted one
        if r in self.left: return False
        if r in self.held or not self.hist[r].revs or self.damaged and self.damaged[0] == r: return False
        w = self.wire(r)
        o = self.rng.choice([o for o in self.names if o != r]) # also that which is current elsewhere
        head = self.hist[o].head if self.rng.random() < 0.6 and self.hist[o].head not in ('root', self.hist[r].head) else 'root'
        h, _ = w.begin(head); self.ctx.check(h['status'] != 'ok', 'a commit on what is not the head is begun')
        w.close(); self.world.wait_unlocked(r); self.ctx.count('outdated')
        return True

    def locked(self, r):
        if r in self.held: return False
        path = os.path.join(self.world.store[r], 'lock_file')
        with open(path, 'a') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            for o in self.names:
                if o != r and o not in self.held and self.commit(o): self.ctx.count('locked_by_manager')
        return None # others did change

    def damage(self, r):
        if self.damaged or r in self.held or not self.hist[r].revs: return False
        base = self.world.store[r]
        objects = [os.path.join(at, n) for k in ('files', 'index') for at, _, names in os.walk(os.path.join(base, k)) for n in names]
        full = self.rng.choice(sorted(objects)); data = open(full, 'rb').read()
        if self.rng.random() < 0.5 or not data: os.remove(full)
        else:
            with open(full, 'wb') as f: f.write(b'\0' + data[:-1] + b'!')
        self.damaged = (r, full, data); self.ctx.count('damaged')
        return True

    def repair(self):
        if not self.damaged: return
        _, full, data = self.damaged; self.damaged = None
        with open(full, 'wb') as f: f.write(data)

    def kill(self, r):
        """ everything open is lost at once, each of them keeps its own """
        for o, x in self.held.items(): self.left[o] = (x.user, x.puts); x.w.close()
        self.held = {}
        self.world.server.kill(); self.drop_shared()
        self.ctx.check(self.world.server.restart(), 'the server does not start again')
        self.ctx.count('killed')
        return None

    def manager(self, r, what = None):
        what = what or self.rng.choice(['verify', 'gc', 'backup', 'gc' if self.left else 'backup', 'gc' if self.left else 'verify'])
        some = [o for o in self.names if o not in self.held and (o == r or self.rng.random() < (0.8 if what == 'gc' else 0.5))]
        if what != 'verify' and self.damaged: some = [o for o in some if o != self.damaged[0]]
        if not some: return False
        config = {'repositories' : {o : dict(self.world.config['repositories'][o], backup = True) for o in some},
                  's3' : {'access_key' : 'a', 'secret_key' : 's', 'bucket' : 'b'}, 'crypto' : {'crypt_password' : 'pw'}, 'chunk_size' : 5000}
        if what == 'backup' and self.rng.random() < 0.5: # the others are there, but need no backup
            for o in self.names:
                if o not in config['repositories']: config['repositories'][o] = dict(self.world.config['repositories'][o], backup = False)
        before = {o : self.state(o) for o in self.names if o not in some or what != 'gc'}
        res = run_repo(config, what, s3 = S3(os.path.join(self.ctx.dir, 's3')))
        bad = self.damaged and self.damaged[0] in some
        self.ctx.check(res.kind == 'done' and (res.ok or bad), 'the manager fails: %s %r' % (what, res), res.extra.get('tb'))
        self.ctx.count({'verify' : 'verified', 'gc' : 'collected', 'backup' : 'backed_up'}[what])
        for o, b in before.items():
            self.ctx.check(self.state(o) == b, 'bvn_repo %s changes a repository it is not for' % what); self.ctx.count('others_unchanged')
        for o in some: # what it kept of interrupted ones has to be enough to go on
            if what == 'gc' and o in self.left and self.rng.random() < 0.85: self.commit(o, self.left[o][0])
        return None

    def at_once(self, r):
        free = [o for o in self.names if o not in self.held and o not in self.left and not (self.damaged and self.damaged[0] == o)]
        if len(free) < 2: return False
        jobs = []
        for o in free[:2]: jobs.append((o, self.wire(o), self.puts()))
        errors = []
        def run(job):
            o, w, puts = job
            try: self.publish(o, w, puts, [], 'at once')
            except BaseException as e: errors.append(e) # pylint: disable=broad-except
        ts = [threading.Thread(target = run, args = (j,)) for j in jobs]
        for t in ts: t.start()
        for t in ts: t.join()
        for _, w, _ in jobs: w.close()
        if errors: raise errors[0]
        for o, _, _ in jobs: self.world.wait_unlocked(o)
        self.ctx.count('at_once')
        return None

    def copy(self, r):
        if r in self.held or r in self.left or self.damaged and self.damaged[0] == r: return False
        if r not in self.wcs: self.wcs[r] = self.world.new_wc('w%d' % len(self.wcs), user = 'ann', repo = r)
        wc = self.wcs[r]
        if self.hist[r].revs:
            res = self.world.cli(wc, 'update'); self.ctx.check(res.ok, 'update fails: %r' % res)
        have = {p : d for p, d in wc.tree().items()}
        self.ctx.check({p : sha(d) for p, d in have.items()} == {p : sha(d) for p, d in self.hist[r].files.items()}, 'the working copy is not what its repository has', (sorted(have), sorted(self.hist[r].files)))
        puts = {p : d for p, d in self.puts().items() if have.get(p) != d}
        if puts:
            for p, d in puts.items(): wc.write(p, d)
            res = self.world.cli(wc, 'commit', '-m', 'copy'); self.ctx.check(res.ok, 'commit fails: %r' % res)
            files, changes = expected(self.hist[r].files, puts, [])
            w = self.wire(r, 'ann')
            self.ctx.check(adopt_head(self.ctx, w, self.hist[r], [('ann', 'copy', files, changes)], 'commit by a working copy'), 'the commit is not there')
            w.close()
        self.world.wait_unlocked(r); self.ctx.count('by_working_copy')
        return True

def case(ctx):
    run = Run(ctx); rng = ctx.rng
    for r in run.names:
        if rng.random() < 0.85: run.commit(r)
    kinds = ['commit'] * 5 + ['hold'] * 4 + ['go_on', 'finish', 'finish', 'finish', 'outdated', 'locked', 'damage', 'damage', 'kill', 'manager', 'manager', 'manager', 'at_once', 'copy', 'copy', 'interrupted', 'interrupted', 'interrupted']
    for _ in range(10 if ctx.quick else 40):
        r = rng.choice(run.names); k = rng.choice(kinds)
        if k == 'finish' and run.held: r = rng.choice(sorted(run.held))
        elsewhere = (len([o for o in run.held if o != r]), bool(run.damaged)); own = (r in run.held, r in run.left)
        before = {o : run.state(o) for o in run.names if o != r}
        done = getattr(run, k)(r)
        if done is False: continue
        if done:
            for o, b in before.items():
                now = run.state(o)
                ctx.check(now == b, '%s changes another repository' % k, sorted(x for x in set(now) | set(b) if now.get(x) != b.get(x)))
                ctx.count('others_unchanged')
        ctx.evaluated((k, elsewhere, own))
        if run.damaged and rng.random() < 0.3: run.repair()
        if rng.random() < 0.5:
            o = rng.choice(run.names)
            if not (run.damaged and run.damaged[0] == o): run.look(o)
    run.repair()
    for r in run.names: run.look(r)
    for r, x in sorted(run.held.items()):
        h = x.w.commit('last'); ctx.check(h['status'] == 'ok', 'a commit held open is refused at the end', h)
        files, changes = expected(run.hist[r].files, x.puts, [])
        run.hist[r].add(h['head'], x.user, 'last', files = files, changes = changes); x.w.close(); run.world.wait_unlocked(r)
    run.held = {}
    for r in run.names: run.commit(r); run.look(r)
    ctx.sample({'names' : list(run.names), 'revisions' : [len(h.revs) for h in run.hist.values()]})
