""" second commands started in a working copy while a first one stands at a request, a question or a file operation, and after it ended or was killed there """
import os, signal
from vlib import gen, diverge
from vlib.core import Pause, KILL
from vlib.cw import Team
from vlib.world import WC, b64

LEVEL = 'exploration'
RULE = ('a case stops a real command (update, commit, revert, pull-ignore, checkout or a listing) at one of its requests (held by the server, before or after it acted), at its question to the user or at a file operation, starts other commands in the same working copy from generated directories, which have to be refused without having sent a request, asked anything or changed a file, '
        'and in another working copy, which have to work; or a command is stopped where it is about to ask for the lock while another one runs from its start to its end or death, and a third one comes later; then the first one goes on, or is killed on the spot, and the next command has to be let in. An evaluation is one second command; distinct by both commands, the place, the directory and how the first one ended')
ASSUMPTIONS = ['a command is running from its first request, question or, after one of these, file operation on']
REQUIRED = ['seconds_refused', 'at_request', 'at_question', 'at_file_operation', 'from_subdirectory', 'first_killed', 'first_completed', 'let_in_after_kill', 'let_in_after', 'other_copy_works', 'first_update', 'first_commit', 'first_revert', 'first_pull-ignore', 'first_checkout', 'first_list', 'handed_over']
QUICK_WALL = 20
THOROUGH_WALL = 600

def plan(tier): return 500 if tier == 'quick' else 4000

def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs: out[os.path.join(base, x)] = None
        for x in files:
            full = os.path.join(base, x)
            st = os.stat(full)
            if full.endswith('/.bvn/lock_file'): out[full] = 'lock'; continue
            with open(full, 'rb') as f: out[full] = (f.read(), st.st_mtime_ns, st.st_ino)
    return out

SECONDS = [('status',), ('update',), ('update', '-f'), ('commit', '-m', 'second'), ('commit',), ('revert', '--all'), ('revert', '-h', '--all'), ('pull-ignore', '-f', '*'), ('pull-ignore', '/x'), ('list-versions',), ('list-files',), ('list-changes',), ('list-ignored-files',)]

class Run:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = ctx.rng
        pool = gen.paths(ctx.rng, 5) + ['/sub/deep/f', '/sub/g']
        pool = [p for i, p in enumerate(pool) if gen.compatible(p, pool[:i]) and p not in pool[:i]]
        self.team = Team(ctx, [('w0', 'ann'), ('w1', ctx.rng.choice(['ann', 'bob']))], pool = pool)
        self.o, self.c = self.team.copies
        self.path = self.c.wc.path
        self.pid_file = os.path.join(ctx.dir, 'pid')
        self.fired = 0; self.kill = False; self.killed = False

    def others(self, place):
        """ runs while the first command is standing somewhere """
        ctx = self.ctx; rng = self.rng; server = self.team.world.server
        self.fired += 1
        if place == 'file operation' and not server.seen(): self.fired -= 1; return
        for _ in range(rng.choice([1, 2])):
            cmd = rng.choice(SECONDS)
            sub = ''
            if rng.random() < 0.5:
                dirs = [os.path.relpath(d, self.path) for d, _, _ in os.walk(self.path) if '/.bvn' not in d + '/' and d != self.path]
                if dirs: sub = rng.choice(sorted(dirs)); ctx.count('from_subdirectory')
            before = snapshot(self.path); requests = len(server.seen())
            r = self.team.world.cli(self.path, *cmd, answers = ['yes', 'y', 'delete'], sub = sub, server = None, timeout = 30)
            ctx.note('second', cmd, 'in', repr(sub), r)
            ctx.check(r.kind == 'done' and not r.ok, 'a second command (%s) is let in while %s is running' % (cmd[0], self.first), r)
            ctx.check(r.exc == 'SystemExit', 'a second command ends in %r' % r, r.extra.get('tb'))
            ctx.check(len(server.seen()) == requests, 'a second command contacts the server', (cmd, server.seen()[requests:]))
            ctx.check(not r.extra['asked'], 'a second command asks the user', r.out)
            after = snapshot(self.path)
            ctx.check(before == after, 'a second command changes something', [p for p in set(before) | set(after) if before.get(p) != after.get(p)])
            ctx.count('seconds_refused'); ctx.count('at_' + place.replace(' ', '_'))
            ctx.evaluated((self.first, cmd, place, bool(sub), self.kill, self.detail))
        # another working copy
        r = self.team.world.cli(self.o.wc, rng.choice(['status', 'list-versions', 'list-ignored-files']), server = None, timeout = 30)
        ctx.check(r.ok, 'a command in another working copy is held up: %r' % r, r.extra.get('tb')); ctx.count('other_copy_works')
        if self.kill and not self.killed:
            pid = int(open(self.pid_file).read())
            os.kill(pid, signal.SIGKILL)
            os.waitid(os.P_PID, pid, os.WEXITED | os.WNOWAIT)
            self.killed = True; ctx.count('first_killed')
            self.next('kill', rng.choice([('status',), ('list-ignored-files',)]))

    def next(self, why, cmd, **kw):
        r = self.team.world.cli(self.path, *cmd, **kw)
        self.ctx.check(r.ok, 'after the first command (%s) ended (%s), the next one is not let in: %r' % (self.first, why, r), r.extra.get('tb'))
        self.ctx.count('let_in_after_kill' if why == 'kill' else 'let_in_after')

    def moment(self, requests, questions):
        """ -> arguments for the first command """
        rng = self.rng; server = self.team.world.server
        kw = {'before' : lambda: open(self.pid_file, 'w').write(str(os.getpid()))}
        place = rng.choice(['request', 'request', 'file'] + (['question'] * 3 if questions else []))
        self.kill = rng.random() < 0.35; self.killed = False; self.fired = 0
        self.pause = None
        if place == 'request':
            n = rng.randrange(requests)
            do = rng.choice(['call', 'call_after'])
            self.detail = (n, do)
            def on_event(msg): self.others('request')
            server.on_event = on_event
            server.rules([{'n' : n, 'do' : do}])
        elif place == 'file':
            self.detail = rng.randrange(rng.choice([10, 30, 80]))
            self.pause = Pause(lambda: self.others('file operation'), self.detail)
            server.rules([])
            kw.update(pause = self.pause, watch = [self.path])
        else:
            self.detail = 0
            self.pause = p = Pause(lambda: self.others('question'), -1)
            def hook(n, out):
                if n > 1: return
                os.write(p.there.fileno(), b'p'); os.read(p.there.fileno(), 1)
            server.rules([])
            kw.update(pause = p, asked_hook = hook)
        return kw

    def over(self):
        self.team.world.server.rules([]); self.team.world.server.on_event = None
        if self.pause is not None: self.pause.close(); self.pause = None

    def first_command(self):
        ctx = self.ctx; rng = self.rng; team = self.team; c = self.c; o = self.o
        kind = rng.choice(['update', 'update', 'conflict', 'commit', 'commit', 'revert', 'pull-ignore', 'list', 'checkout'])
        self.first = kind
        if kind in ('update', 'conflict'):
            team.update(o, 'server' if o.plan().conflicts else None)
            diverge.server_side(ctx, team, o, 0.6, 1)
            if kind == 'conflict': diverge.client_side(ctx, team, c, 0.6)
            p = c.plan()
            if any(not gen.compatible(x, c.local) for x in list(p.pull) + [x for x in p.conflicts if x in team.hist.files]): return
            kw = self.moment(3 + len(p.pull), bool(p.conflicts))
            answers = [rng.choice(['server', 'client'])] * 2
            r = team.world.cli(c.wc, 'update', answers = answers, **kw)
            self.first = 'update'
        elif kind == 'commit':
            team.update(c, 'client' if c.plan().conflicts else None)
            diverge.client_side(ctx, team, c, 0.6)
            if not c.status(): c.write('/new', gen.unique(rng))
            kw = self.moment(4 + len(c.status()), False)
            r = team.world.cli(c.wc, 'commit', '-m', 'first', **kw)
        elif kind == 'revert':
            diverge.client_side(ctx, team, c, 0.6)
            kw = self.moment(3 + len(c.local), True)
            r = team.world.cli(c.wc, 'revert', '--all', answers = ['yes'], **kw)
        elif kind == 'pull-ignore':
            if not c.manifest: return
            f = rng.choice(sorted(c.manifest)).replace('[', '[[]')
            kw = self.moment(2, True)
            r = team.world.cli(c.wc, 'pull-ignore', '-f', f, answers = [rng.choice(['delete', 'nothing'])], **kw)
        elif kind == 'list':
            kw = self.moment(3, False)
            r = team.world.cli(c.wc, *rng.choice([('list-versions',), ('list-files', '-h'), ('list-changes', '-h')]), **kw)
        else:
            cwd = os.path.join(ctx.dir, 'co'); os.makedirs(cwd)
            self.path = cwd + '/repo'
            kw = self.moment(3, False)
            kw = {'before' : kw['before']}
            self.over()
            team.world.server.on_event = lambda msg: self.others('request')
            # before it asks for the changes there is nothing to protect
            n = rng.randrange(len(team.hist.files) + 1)
            team.world.server.rules([{'action' : 'find_changed', 'do' : 'call_after'} if n == 0 else {'action' : 'pull_file', 'nth' : n - 1, 'do' : rng.choice(['call', 'call_after'])}]); self.detail = n
            r = team.world.cli(cwd, 'checkout', 'http://%s:%d/repo' % team.world.server.addr, answers = [o.user, b64(b'n' + team.world.keys[o.user][1])], **kw)
        self.over()
        ctx.note('first', kind, self.detail, r, 'fired', self.fired)
        if self.killed: ctx.check(r.kind == 'killed', 'it was not killed: %r' % r)
        else:
            ctx.check(r.kind == 'done' and r.exc in (None, 'SystemExit'), 'the first command ends in %r' % r, r.extra.get('tb'))
            ctx.check(r.ok, 'the first command (%s) is disturbed by the second: %r' % (self.first, r), r.extra.get('tb'))
            if self.fired: ctx.count('first_completed')
        if self.fired: ctx.count('first_' + self.first)
        team.world.wait_unlocked()
        # afterwards everything works
        self.next('kill' if self.killed else 'done', rng.choice([('status',), ('list-versions',), ('update',)]), answers = ['client'] * 3)
        self.next('done', ('update',), answers = ['client'] * 3)
        if kind == 'checkout':
            got = WC(self.path, team.world.times).tree()
            ctx.check(got == team.hist.files, 'the checkout is not complete', set(got) ^ set(team.hist.files))
        return True

    def handover(self):
        """ a command is about to ask for the lock when another one runs from its start to its end, or to its death; then a third one comes """
        ctx = self.ctx; rng = self.rng; team = self.team; server = team.world.server; c = self.c
        free = rng.choice([('status',), ('list-ignored-files',)])
        killed = rng.random() < 0.3; seen = []
        def between():
            kw = {'arm' : (rng.randrange(4, 40), KILL, 0), 'watch' : [self.path]} if killed else {}
            r = team.world.cli(c.wc, *free, timeout = 30, **kw)
            ctx.note('in between', free, r); seen.append(r)
            if not killed: ctx.check(r.ok, 'a command is not let in although none is running: %r' % r, r.extra.get('tb'))
        p = Pause(between, 0, only = ('lock',))
        def on_event(msg):
            r = team.world.cli(c.wc, *rng.choice(SECONDS[:9]), answers = ['yes', 'y', 'delete'], server = None, timeout = 30)
            ctx.note('third', r)
            ctx.check(r.kind == 'done' and not r.ok and r.exc == 'SystemExit', 'a command is let in while another one, which waited for the end of a prior one, is running', r)
            ctx.count('handed_over'); ctx.evaluated(('handover', free, killed, msg.get('action') if isinstance(msg, dict) else ''))
        server.on_event = on_event
        server.rules([{'action' : 'list_versions', 'do' : rng.choice(['call', 'call_after'])}])
        r = team.world.cli(c.wc, 'list-versions', pause = p, watch = [self.path], timeout = 60)
        server.rules([]); server.on_event = None; p.close()
        ctx.note('handover', r)
        ctx.check(r.kind == 'done' and r.exc in (None, 'SystemExit'), 'a command ends in %r' % r, r.extra.get('tb'))
        team.world.wait_unlocked()
        self.first = 'handover'
        self.next('done', ('status',))

def case(ctx):
    run = Run(ctx); team = run.team
    diverge.base(ctx, team)
    if ctx.index % 6 == 5:
        for _ in range(3): run.handover()
        return
    run.first_command()
    ctx.sample({'first' : run.first, 'detail' : repr(getattr(run, 'detail', None))})
