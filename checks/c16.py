""" every combination of local and server side changes, against a three-way reference model of conflicts """
import os, signal
from vlib import gen
from vlib.cw import Team
from vlib.diverge import base, server_side, client_side
from vlib.core import lib

LEVEL = 'exploration'
RULE = ('a case lets one working copy and the server (through another one) change, delete and create the same and different files in every combination, over one to three '
        'revisions, then updates the first: without answer, killed at the question, with senseless answers, then answered; before the user\'s choice nothing of the user\'s may change; '
        'the reported conflicts have to be exactly those of the three-way comparison; commits on outdated revisions are tried in between, and at the end the user goes on editing while the question is shown. An evaluation is one update; distinct by the multiset of combinations met and the way it was answered')
ASSUMPTIONS = ['edits change the modification time']
REQUIRED = ['edited_while_asked', 'conflicts', 'unanswered', 'killed_at_question', 'senseless_answers', 'commits_refused', 'kept_local', 'pull_ignored_cases', 'both_deleted']
QUICK_WALL = 18
THOROUGH_WALL = 700

def plan(tier): return 300 if tier == 'quick' else 4000

def untouched(ctx, c, before, plan, what):
    """ whatever the user did since the last update is as the user left it """
    tree = c.wc.tree()
    for p, s in before.items():
        ctx.check(tree.get(p) == (None if s == 'deleted' else c.local[p]), what + ': local work on %r (%s) was overwritten' % (p, s),
                  (p in tree, tree.get(p, b'')[:50]))
        ctx.count('kept_local')

def edited_while_asked(ctx, team, c0, c):
    """ the user goes on working while the question about the conflicts is shown """
    rng = ctx.rng
    client_side(ctx, team, c, 0.5)
    team.update(c0, 'server' if c0.plan().conflicts else None)
    server_side(ctx, team, c0, 0.7)
    plan = c.plan(); before = c.status()
    if not plan.conflicts: return
    places = [p for p in list(plan.conflicts) * 2 + sorted(plan.pull) + list(plan.delete) + sorted(c.local)
              if not c.ignored(p) and gen.compatible(p, [x for x in c.local if x != p]) and gen.compatible(p, [x for x in plan.pull if x != p])]
    if not places: return
    path = rng.choice(places)
    full = c.wc.full(path); t = c.wc.times.next(); data = gen.unique(rng)
    action = 'remove' if path in c.local and rng.random() < 0.25 else 'write'
    if action == 'write' and (os.path.isdir(full) or not os.path.isdir(os.path.dirname(full))): return
    def hook(n, out):
        if n > 1: return
        if action == 'remove': os.remove(full)
        else:
            with open(full, 'wb') as f: f.write(data)
            os.utime(full, (t, t))
    side = rng.choice(['server', 'server', 'client'])
    r = team.world.cli(c.wc, 'update', answers = [side], asked_hook = hook)
    ctx.note('update', side, r, 'while asked', action, path)
    now = open(full, 'rb').read() if os.path.isfile(full) else None
    ctx.check(r.kind == 'done' and r.exc in (None, 'SystemExit'), 'update does not end properly: %r' % r, r.extra.get('tb'))
    if action == 'write': ctx.check(now == data, 'an edit made while update was asking its question is lost', (path, side, plan.conflicts.get(path)))
    else: ctx.check(now is None or not r.ok or path in plan.conflicts or path in plan.pull, 'update brings back a file which was deleted while it was asking', (path, side))
    s = team.world.cli(c.wc, 'status'); ctx.check(s.ok, 'status fails: %r' % s, s.extra.get('tb'))
    told = c.parse_status(s.out)
    if action == 'write': ctx.check(told.get(path) in ('new', 'changed'), 'an edit made while update was asking its question is not reported', (path, side, told.get(path)))
    # and whatever else was changed here, apart from the conflicts, is still there
    for p in before:
        if p == path or p in plan.conflicts and side == 'server': continue
        d = open(c.wc.full(p), 'rb').read() if os.path.isfile(c.wc.full(p)) else None
        ctx.check(d == c.local.get(p), 'local work is changed by an update', p)
    ctx.count('edited_while_asked'); ctx.evaluated(('edited while asked', action, side, path in plan.conflicts, path in plan.pull, path in plan.delete, r.ok))

def case(ctx):
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', rng.choice(['ann', 'bob']))], pool = gen.paths(rng, rng.choice([4, 6, 9, 14])))
    c0, c = team.copies
    base(ctx, team)
    for round in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.15 and not c.pull_filters:
            # some paths are pull ignored in this copy. They stay where they are
            c.pull_filters = [rng.choice(team.pool).replace('[', '[[]').replace('?', '[?]').replace('*', '[*]')]
            c.pull_filters = [f for f in c.pull_filters if '[[]' not in f or True]
            with open(c.wc.path + '/.bvn_pull_ignore', 'w') as f: f.write('\n' + c.pull_filters[0] + '\n')
            ctx.count('pull_ignored_cases')
        client_side(ctx, team, c, rng.choice([0.3, 0.6, 0.9]))
        if rng.random() < 0.3: team.commit(c, 'own') if not c.plan().conflicts and c.base == len(team.hist.revs) - 1 else None
        team.update(c0, 'server' if c0.plan().conflicts else None)
        server_side(ctx, team, c0, rng.choice([0.3, 0.6, 0.9]))
        if rng.random() < 0.4: client_side(ctx, team, c, 0.3)
        before = c.status(); plan = c.plan()
        ctx.note('local', before, 'conflicts', plan.conflicts, 'pull', sorted(plan.pull), 'delete', plan.delete)
        for p in plan.forget:
            if p in before: ctx.count('both_deleted')
        if before and rng.random() < 0.7: team.commit(c, 'outdated') # is refused
        if plan.conflicts:
            for _ in range(rng.randrange(3)):
                how = rng.randrange(3)
                if how == 0:
                    team.update(c, None); ctx.count('unanswered')
                elif how == 1:
                    def die(n, out): os.kill(os.getpid(), signal.SIGKILL)
                    r = team.world.cli(c.wc, 'update', asked_hook = die)
                    ctx.check(r.kind == 'killed', 'the user is not asked about conflicts', r)
                    ctx.count('killed_at_question')
                else:
                    r = team.world.cli(c.wc, 'update', answers = ['', 'nonsense', 'serverclient', 'y', 'no', ' server'])
                    ctx.check(not r.ok, 'a senseless answer is taken for a choice', r)
                    ctx.count('senseless_answers')
                c.check('after an update without choice')
                untouched(ctx, c, before, plan, 'an update without choice')
                ctx.evaluated(('unanswered', how, len(plan.conflicts)))
        side = rng.choice(['server', 'client', 'CLIENT']) if plan.conflicts else None
        if side == 'CLIENT': # answers are not case sensitive
            r = team.world.cli(c.wc, 'update', answers = ['what', 'Client'])
            team.conflicts_reported(r, plan)
            ctx.check(r.ok, 'update fails: %r' % r); c.apply(plan, 'client'); c.check('update'); side = 'client'
        else: team.update(c, side, full = rng.random() < 0.15)
        if side != 'server': untouched(ctx, c, before, plan, 'update')
        else: untouched(ctx, c, {p : s for p, s in before.items() if p not in plan.conflicts}, plan, 'update')
        ctx.evaluated((side, tuple(sorted(plan.conflicts.values())), len(plan.pull) > 0, len(plan.delete) > 0, tuple(sorted(before.values()))))
        c.check_status('after the update')
        if rng.random() < 0.6: team.commit(c, 'resolved')
    if rng.random() < 0.5: edited_while_asked(ctx, team, c0, c)
    ctx.sample({'paths' : team.pool, 'last conflicts' : plan.conflicts, 'local changes' : before})
