""" model-based comparison of working copies, driven by the real client, with the server's history after every command """
from vlib import gen
from vlib.cw import Team

LEVEL = 'exploration'
RULE = ('a case lets two or three working copies make random edits (hostile names and contents, files turning into directories and back), commits and updates in '
        'random order through the real client and server; after every command the disk, the client\'s records and the server\'s history are compared with a '
        'reference model, and at the end all of them update and have to be identical. An evaluation is one command; distinct by command, numbers of files pulled, deleted, '
        'in conflict and committed')
ASSUMPTIONS = ['edits change the modification time', 'no local untracked file stands where an update has to create a directory', 'one command at a time (C20, C24 and C28 judge the rest)']
REQUIRED = ['commits_published', 'updates_pulling', 'updates_deleting', 'commits_refused', 'turned', 'converged', 'trees_compared', 'conflicts', 'long_histories']
QUICK_WALL = 18
THOROUGH_WALL = 700

def plan(tier): return 400 if tier == 'quick' else 4000

def turn(ctx, team, c):
    """ a file becomes a directory, a directory becomes a file, or a file moves in or out of a directory """
    rng = ctx.rng
    base = [p for p in c.local if p.startswith('/turn') and p in team.frozen]
    if not base:
        p = '/turn' + str(rng.randrange(3))
        if not gen.compatible(p, c.local): return
        clear_dirs(c, p)
        c.write(p, gen.content(rng)); team.frozen.add(p)
        return
    p = rng.choice(sorted(base))
    top = '/' + p.split('/')[1]
    under = [q for q in base if q == top or q.startswith(top + '/')]
    k = rng.randrange(3)
    if k == 0 or p == top: # everything becomes one deeper or another tree
        prune = rng.random() < 0.5
        for q in under: c.remove(q, prune or q == top)
        if p == top: new = [top + '/x', top + '/y/z'][:rng.choice([1, 2])]
        else: new = [top]
        if new == [top]: clear_dirs(c, top)
    elif k == 1:
        for q in under: c.remove(q, True)
        new = [top + '/y'] if p != top + '/y' else [top + '/y/z']
        if p.startswith(top + '/y/'): new = [top + '/y']
        clear_dirs(c, new[0])
    else:
        for q in under: c.remove(q, rng.random() < 0.5)
        new = []
    for q in new:
        c.write(q, gen.content(rng)); team.frozen.add(q)
    ctx.count('turned')

def clear_dirs(c, p):
    """ empty directories in the way of a file the user is going to write """
    import os
    for d, _, _ in os.walk(c.wc.full(p), topdown = False):
        try: os.rmdir(d)
        except OSError: pass

def case(ctx):
    rng = ctx.rng
    n = rng.choice([2, 2, 3])
    team = Team(ctx, [('w%d' % i, rng.choice(['ann', 'bob'])) for i in range(n)])
    if rng.random() < 0.4: # an ignore file, committed like any other
        c = team.copies[0]
        filters = rng.choice([['*.tmp'], ['/build/*', '*.o'], ['*[0-9].log', '', '/ignored dir/*']])
        c.write('/.bvn_ignore', '\n'.join(filters).encode())
        team.frozen.add('/.bvn_ignore')
        team.commit(c)
        for x in team.copies[1:]: team.update(x)
    extra = ['/t.tmp', '/build/a', '/a.o', '/x1.log', '/ignored dir/f']
    long = rng.randrange(4) if ctx.index % 50 == 9 else None
    for step in range(rng.choice([6, 10, 16])):
        if step == long: team.long()
        c = rng.choice(team.copies)
        r = rng.random()
        if r < 0.45:
            c.edit(rng, team.pool, rng.choice([1, 1, 2, 4]))
            if rng.random() < 0.2 and c.filters:
                p = rng.choice(extra)
                if gen.compatible(p, c.local): c.write(p, gen.content(rng))
        elif r < 0.6:
            # turning files into directories: committed at once
            choice = rng.choice(['server', 'client'])
            team.update(c, choice if c.plan().conflicts else None)
            turn(ctx, team, c); team.commit(c, 'turn')
            ctx.evaluated(('turn', len(team.hist.revs[-1].changes) if team.hist.revs else 0))
        elif r < 0.8:
            before = c.plan()
            full = rng.random() < 0.2
            team.update(c, rng.choice(['server', 'client']) if before.conflicts else None, full)
            ctx.evaluated(('update', full, len(before.pull), len(before.delete), len(before.conflicts), len(c.status())))
        else:
            st = c.status()
            team.commit(c, rng.choice(['m', 'message %d' % step, 'ümlaut']))
            ctx.evaluated(('commit', tuple(sorted(st.values()))))
        if rng.random() < 0.15: c.check_status('step')
    # everything is published and everybody updates
    for c in team.copies:
        team.update(c, rng.choice(['server', 'client']) if c.plan().conflicts else None)
        team.commit(c, 'final')
    for c in team.copies:
        team.update(c)
        tracked = {p : d for p, d in c.wc.tree().items() if not c.ignored(p)}
        ctx.check(tracked == team.hist.files, 'a working copy is not identical to the head at the end', sorted(set(tracked) ^ set(team.hist.files)))
        c.check_status('the end')
        ctx.count('converged')
    team.hist.verify(ctx, team.reader, what = 'at the end')
    ctx.sample({'revisions' : [r.changes for r in team.hist.revs[:4]], 'copies' : n})
