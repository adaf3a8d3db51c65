""" a real client killed at file-system operations of an update (before them and half way through writes), singly and repeatedly, then run again; every file is compared with its old and new content, the outcome with an uninterrupted update """
import os, shutil, copy, random, errno
from vlib import gen, diverge
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM
from vlib.cw import Team, parse_conflicts

LEVEL = 'fault_enumeration'
RULE = ('a case lets the server and a working copy diverge by generated commits and local edits, counts the file-system operations of the update of that copy, and then repeats the update from the same state killed at one of them, before it or half way through it, or with that operation failing; '
        'what follows may be killed again at random, and finally completes. An evaluation is one killed update; distinct by the position in the operation sequence, kind of kill, number of kills, and what the update had to do')
ASSUMPTIONS = ['what the process had written is there after its death (no power failure)', 'no local untracked file stands where an update has to create a directory, or a directory where it has to create a file']
REQUIRED = ['disk_errors', 'errors_survived', 'kills', 'kill_points_after_the_end', 'second_kills', 'with_conflicts', 'with_local_changes', 'with_deletes', 'status_between', 'full', 'edits_kept', 'edits_set_aside']
QUICK_WALL = 22
THOROUGH_WALL = 800
CASE_TIMEOUT = 300

def plan(tier): return 100 if tier == 'quick' else 1500

def case(ctx):
    rng = ctx.rng
    team = Team(ctx, pool = gen.paths(rng, rng.choice([4, 7, 10])))
    a, b = team.copies
    if rng.random() < 0.85: diverge.base(ctx, team)
    diverge.server_side(ctx, team, a, density = rng.choice([0.4, 0.7, 1]))
    if rng.random() < 0.2: # much of it, so that it comes in several writes
        p = '/big' if gen.compatible('/big', a.local) else sorted(a.local)[0]
        a.write(p, gen.unique(rng) * rng.choice([3000, 100000])); team.commit(a, 'big')
    mode = rng.choice(['none', 'apart', 'conflicts', 'conflicts'])
    if mode == 'apart':
        server = set()
        for r in team.hist.revs[b.base + 1:]: server |= set(r.changes)
        for p in gen.paths(rng, 3) + [p for p in b.local if p not in server]:
            if p in server or rng.random() < 0.3: continue
            if not gen.compatible(p, set(team.hist.files) | set(b.local) | server): continue
            if p in b.local and rng.random() < 0.3: b.remove(p)
            else: b.write(p, gen.content(rng))
    elif mode == 'conflicts': diverge.client_side(ctx, team, b, rng.choice([0.3, 0.7]))
    full = rng.random() < 0.2
    choice = rng.choice(['server', 'client'])
    p = b.plan(full)
    # the file and directory of one name on both sides is left to the user
    for x in b.local:
        for y in p.pull:
            if x.startswith(y + '/') or y.startswith(x + '/'): p = None; break
        if p is None: break
    if p is not None:
        for x, (_, s) in p.conflicts.items():
            if s == 'Changed' and not gen.compatible(x, b.local): p = None; break
    if p is None: ctx.count('left_out'); return
    args = ['update'] + (['-f'] if full else [])
    answers = [choice] * 3
    old = dict(b.local); status = b.status()
    saved = os.path.join(ctx.dir, 'saved')
    shutil.copytree(b.wc.path, saved, symlinks = True)
    b.apply(p, choice)
    new = dict(b.local)

    def run(arm): return team.world.cli(b.wc, *args, answers = answers, watch = [b.wc.path], arm = arm)

    r = run((-1, 0, 0))
    ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb'))
    b.check('uninterrupted update')
    n = r.extra['count']
    if p.conflicts: ctx.count('with_conflicts')
    if status: ctx.count('with_local_changes')
    if p.delete: ctx.count('with_deletes')
    if full: ctx.count('full')
    points = [(k, x) for k in range(n + 1) for x in (KILL, HALF_KILL)]
    budget = 20 if ctx.quick else 500
    if len(points) > budget: points = rng.sample(points, budget)
    # the disk fails instead
    points += [(rng.randrange(n + 1), rng.choice([ERR, ERR, ERR_FROM])) for _ in range(8 if ctx.quick else 150)]
    shape = (min(len(p.pull), 3), min(len(p.delete), 3), bool(p.conflicts), mode)

    def whole(tree, what):
        for f in set(tree) | set(old) | set(new):
            allowed = [old.get(f), new.get(f)]
            if f in p.conflicts: allowed = [old.get(f), new.get(f)]
            ctx.check(tree.get(f) in allowed, what + ': a file is neither what it was nor what it has to become', (f, None if f not in tree else (len(tree[f]), tree[f][:100]), [None if x is None else len(x) for x in allowed]))

    def edited(crng, what):
        """ the user changes a file before anything is run again: set aside or kept, but never lost and never taken for what the server has """
        f = crng.choice(sorted(set(old) | set(new) | set(team.pool))); full_path = b.wc.full(f)
        if os.path.isdir(full_path) or not os.path.isdir(os.path.dirname(full_path)): return
        data = gen.unique(crng, 'edited meanwhile'); what += ', then %r is edited' % f
        with open(full_path, 'wb') as h: h.write(data)
        t = b.wc.times.next(); os.utime(full_path, (t, t))
        r = team.world.cli(b.wc, 'status')
        ctx.check(r.ok, what + ': status fails: %r' % r, r.extra.get('tb'))
        kept = b.wc.tree().get(f) == data
        aside = set()
        for d, _, names in os.walk(b.wc.path + '/.bvn/back'):
            for x in names:
                with open(os.path.join(d, x), 'rb') as h: aside.add(h.read())
        ctx.check(kept or data in aside, what + ': what was written is lost')
        if not kept: ctx.count('edits_set_aside'); return
        ctx.count('edits_kept')
        ctx.check(f in b.parse_status(r.out) or b.ignored(f), what + ': it is not reported as changed', r.out[-400:])
        r = team.world.cli(b.wc, *args, answers = ['client'] * 9)
        ctx.check(r.ok, what + ': the update can not be run again: %r' % r, r.extra.get('tb') or r.out[-600:])
        ctx.check(b.wc.tree().get(f) == data, what + ': the update replaces it although the own version was chosen')
        r = team.world.cli(b.wc, 'status')
        ctx.check(f in b.parse_status(r.out) or b.ignored(f), what + ': after the update it does not show as changed')
        ctx.evaluated(('edited', full, mode, f in p.pull, f in p.delete, f in p.conflicts, f in status))

    for k, action in points:
        crng = random.Random(repr((ctx.seed, ctx.index, k, action)))
        shutil.rmtree(b.wc.path); shutil.copytree(saved, b.wc.path, symlinks = True)
        err = crng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]) if action in (ERR, ERR_FROM) else 0
        what = 'operation %d of %d fails (%s%s)' % (k, n, errno.errorcode[err], ', like all that follow' if action == ERR_FROM else '') if err else 'killed at operation %d of %d (%s)' % (k, n, 'before' if action == KILL else 'half way')
        ctx.note(what); apart = False
        r = run((k, action, err))
        kills = 0
        if err:
            ctx.check(r.kind == 'done', what + ': the update hangs or dies: %r' % r)
            if r.extra['fired']: kills = 1; ctx.count('disk_errors')
            if r.ok and 'At revision: ' in r.out: b.check(what + ', and the update says it is complete'); ctx.count('errors_survived')
        elif r.kind == 'killed': kills = 1; ctx.count('kills')
        else:
            ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb')); ctx.count('kill_points_after_the_end')
        while kills and kills < 4 and crng.random() < 0.4: # again, possibly inside of the recovery
            k2 = crng.choice([crng.randrange(0, 12), crng.randrange(0, n + 10)])
            first = crng.random() < 0.3
            if first: r = team.world.cli(b.wc, 'status', watch = [b.wc.path], arm = (k2, crng.choice([KILL, HALF_KILL]), 0))
            else: r = run((k2, crng.choice([KILL, HALF_KILL]), 0))
            ctx.note('again at', k2, r)
            if r.kind != 'killed': break
            kills += 1; ctx.count('second_kills')
        if kills and crng.random() < 0.2:
            edited(crng, what); apart = True; continue
        if crng.random() < 0.5:
            r = team.world.cli(b.wc, 'status')
            ctx.check(r.ok, what + ': status fails: %r' % r, r.extra.get('tb'))
            ctx.count('status_between')
            whole(b.wc.tree(), what + ', then status')
            # what the user had changed, and only that, shows as conflict later, so no more may be reported as changed locally
            shown = b.parse_status(r.out)
            for f in status:
                if f not in p.conflicts and f not in p.forget: ctx.check(shown.get(f) == status[f], what + ': a local change is not reported any more', (f, status[f], shown))
        r = run((-1, 0, 0))
        got = parse_conflicts(r.out)
        ctx.check(r.ok, what + ': the update can not be run again: %r' % r, r.extra.get('tb') or r.out[-1000:])
        for f, c in got.items(): ctx.check(p.conflicts.get(f) == c, what + ': the repeated update reports a conflict the user did not cause', (f, c, p.conflicts.get(f)))
        whole(b.wc.tree(), what + ', then update')
        b.check(what + ', then update')
        if crng.random() < 0.3: b.check_status(what + ', then update')
        ctx.evaluated((k * 20 // (n + 1), action, kills) + shape)
    # and the copy can go on
    if points and apart:
        shutil.rmtree(b.wc.path); shutil.copytree(saved, b.wc.path, symlinks = True)
        r = run((-1, 0, 0)); ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb'))
    st = b.status()
    team.update(b); team.commit(b, 'after'); team.update(a)
    ctx.sample({'operations' : n, 'kill_points' : len(points), 'pulled' : sorted(p.pull)[:5], 'deleted' : sorted(p.delete)[:5], 'conflicts' : p.conflicts, 'local' : status})
