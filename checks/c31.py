""" after every command the private directory of the working copy is searched for what files contain or contained, and weighed against what its records may take """
import os
from vlib import gen
from vlib.cw import Team
from vlib.diverge import base, server_side, client_side

LEVEL = 'exploration'
RULE = ('working copies make commits, updates with and without conflicts (resolved to either side, or with a resolution file and downloaded versions), reverts to the recorded and to other revisions, pull-ignores, listings, refused commands and checkouts; files come with contents of their own '
        'from small to some hundred kilobytes that cannot be compressed, and change often. After each command that ended well no beginning of any content that ever was in a file may be found below .bvn, except of the versions offered for comparison while a decision is waited for, no file may have grown there beyond what number and names of the files explain, and nothing may have been put next to the working copy. '
        'An evaluation is one command; distinct by command, what it had to do, and the number of files')
ASSUMPTIONS = ['the commands before were not interrupted (C18, C19 and C22 judge interrupted ones)', 'what records take per file is at most 4 KB and four times its name']
REQUIRED = ['searched', 'bytes_searched', 'updates_pulling', 'updates_deleting', 'conflicts', 'reverts', 'comparisons_kept', 'comparisons_gone', 'commits_published', 'checkouts', 'refused', 'pull_ignores']
QUICK_WALL = 15
THOROUGH_WALL = 500

def plan(tier): return 200 if tier == 'quick' else 3000

class Watch:
    def __init__(self, ctx, team):
        self.ctx = ctx; self.team = team; self.marks = {}; self.most = 0

    def content(self):
        """ starts with something that is nowhere else, and cannot be compressed """
        rng = self.ctx.rng
        d = ('%016x' % rng.getrandbits(64)).encode() + rng.randbytes(rng.choice([8, 50, 1000, 5000, 150000, 400000]))
        self.marks[d[:16]] = len(d)
        return d

    def look(self, wc, what, key):
        ctx = self.ctx
        private = os.path.join(wc.path, '.bvn'); waiting = os.path.exists(private + '/conflict_resolution')
        tree = wc.tree()
        total = 0
        for d, dirs, names in os.walk(private):
            if d.startswith(private + '/conflict_files') and waiting: ctx.count('comparisons_kept', len(names)); continue
            ctx.check(d == private or not d.startswith(private + '/conflict_files') or not names, what + ': versions for comparison are still there although nothing waits for a decision', names)
            for n in names:
                full = os.path.join(d, n)
                with open(full, 'rb') as f: data = f.read()
                total += len(data)
                ctx.count('bytes_searched', len(data))
                if n in ('conflict_resolution',): continue
                for m in self.marks:
                    ctx.check(m not in data and m.hex().encode() not in data, what + ': the working copy keeps a copy of what a file contains or contained', (full[len(wc.path):], len(data), 'content of %d bytes' % self.marks[m]))
        names = set(tree) | {p for r in self.team.hist.revs[-1:] for p in r.files}
        self.most = max(self.most, sum(4096 + 4 * len(p.encode()) for p in names)) # databases do not shrink
        ctx.check(total <= 65536 + self.most, what + ': the records of the working copy take more than number and names of its files explain', (total, len(names)))
        beside = set(os.listdir(os.path.dirname(wc.path))) - {os.path.basename(c.wc.path) for c in self.team.copies} - {os.path.basename(wc.path)}
        ctx.check(not beside, what + ': something was put next to the working copy', sorted(beside))
        ctx.count('searched'); ctx.evaluated(key)

def case(ctx):
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', rng.choice(['ann', 'bob']))], pool = gen.paths(rng, rng.choice([4, 7])))
    w = Watch(ctx, team)
    c0, c = team.copies
    gen_content, gen_unique = gen.content, gen.unique
    try:
        gen.content = lambda *a, **k: w.content(); gen.unique = lambda *a, **k: w.content()
        run(ctx, team, w, c0, c)
    finally: gen.content, gen.unique = gen_content, gen_unique

def run(ctx, team, w, c0, c):
    rng = ctx.rng
    base(ctx, team); w.look(c0.wc, 'commit', 'base'); w.look(c.wc, 'update', 'base')
    for step in range(rng.choice([3, 5, 8]) if ctx.quick else 30):
        k = rng.choice(['both', 'both', 'both', 'manual', 'revert', 'revert', 'refused', 'list', 'status'])
        if k in ('both', 'manual'):
            client_side(ctx, team, c, 0.6)
            team.update(c0, 'server' if c0.plan().conflicts else None); w.look(c0.wc, 'update', ('update', 'other'))
            server_side(ctx, team, c0, 0.6); w.look(c0.wc, 'commit', ('commit', len(c0.local)))
            plan = c.plan(); side = rng.choice(['server', 'client'])
            if k == 'manual' and plan.conflicts:
                r = team.world.cli(c.wc, 'update', answers = ['manual', rng.choice(['y', 'y', 'n'])])
                ctx.check(not r.ok and os.path.exists(c.wc.path + '/.bvn/conflict_resolution'), 'no resolution file is written', r)
                w.look(c.wc, 'update with a decision to make', ('update', 'manual', len(plan.conflicts)))
                f = c.wc.path + '/.bvn/conflict_resolution'
                text = open(f, encoding = 'utf8', newline = '').read()
                with open(f, 'w', encoding = 'utf8', newline = '') as h: h.write(text.replace('\nResolution: \n', '\nResolution: %s\n' % side))
                r = team.world.cli(c.wc, 'update'); ctx.check(r.ok, 'a correct resolution file is refused', r)
                c.apply(plan, side); c.check('update with resolution file'); ctx.count('comparisons_gone')
                ctx.check(not os.path.exists(f), 'the resolution file is still there')
                w.look(c.wc, 'update with resolution file', ('update', 'resolved', side))
            else:
                team.update(c, side if plan.conflicts else None, full = rng.random() < 0.2)
                w.look(c.wc, 'update', ('update', len(plan.pull), len(plan.delete), len(plan.conflicts), side))
            if rng.random() < 0.7: team.commit(c, 'm'); w.look(c.wc, 'commit', ('commit', len(c.local)))
        elif k == 'revert' and team.hist.revs:
            n = rng.choice([None, rng.randrange(len(team.hist.revs))])
            files = team.hist.revs[n].files if n is not None else team.hist.revs[c.base].files
            for p in c.local:
                if any(p != q and (p.startswith(q + '/') or q.startswith(p + '/')) for q in files): break
            else:
                if not files: continue
                r = team.world.cli(c.wc, 'revert', *(['--v', team.hist.revs[n].id] if n is not None else []), '--all', answers = ['yes'])
                ctx.check(r.ok, 'a revert fails: %r' % r, r.extra.get('tb'))
                w.look(c.wc, 'revert', ('revert', n is None, len(files))); ctx.count('reverts')
                # the models: what is there now counts
                head = n is None or n == c.base
                now = c.wc.tree()
                if head: c.manifest = dict(c.wc.meta()[1]); c.dirty -= set(files)
                else: c.dirty |= set(now) & set(c.manifest)
                c.local = now; c.dirty &= set(now)
        elif k == 'refused':
            r = team.world.cli(c.wc, *rng.choice([('list-changes', '--v', 'f' * 64), ('revert', '--v', 'nonsense', '*'), ('pull-ignore',), ('list-files', '--v', '0')]), answers = ['yes'])
            ctx.check(not r.ok, 'harness: accepted', r); w.look(c.wc, 'refused command', 'refused'); ctx.count('refused')
        elif k == 'status':
            r = team.world.cli(c.wc, 'status'); ctx.check(r.ok, 'status fails', r); w.look(c.wc, 'status', 'status')
        else:
            cmd = rng.choice([('list-versions',), ('list-files', '-h'), ('list-changes', '-h'), ('list-ignored-files',)])
            r = team.world.cli(c.wc, *cmd); ctx.check(r.ok, '%s fails: %r' % (cmd, r)); w.look(c.wc, cmd[0], cmd)
    # -------------------------------- a checkout
    d = os.path.join(ctx.dir, 'checkouts'); os.makedirs(d)
    from vlib.world import WC, b64
    r = team.world.cli(d, 'checkout', 'http://%s:%d/repo' % team.world.server.addr, answers = ['ann', b64(b'n' + team.world.keys['ann'][1])])
    ctx.check(r.ok, 'a checkout fails: %r' % r, r.extra.get('tb'))
    w.look(WC(d + '/repo', team.world.times), 'checkout', ('checkout', len(team.hist.files))); ctx.count('checkouts')
    # -------------------------------- files it shall not have any more
    if c.local:
        r = team.world.cli(c.wc, 'pull-ignore', '-f', rng.choice(['*', '/*[a-m]*', rng.choice(sorted(c.local)).split('*')[0].split('[')[0].split('?')[0] + '*']), answers = [rng.choice(['delete', 'nothing'])])
        ctx.check(r.ok, 'pull-ignore fails: %r' % r, r.extra.get('tb')); w.look(c.wc, 'pull-ignore', ('pull-ignore', len(c.local))); ctx.count('pull_ignores')
    ctx.sample({'marks' : len(w.marks), 'revisions' : len(team.hist.revs)})
