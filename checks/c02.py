""" C02: published revisions never change """
from vlib import gen
from vlib.world import World
from vlib.life import Life
from vlib.wire import WireError

LEVEL = 'exploration'
RULE = ('a case is a random life of a repository (commits, aborts, interrupted, resumed and superseded commits, refused and malformed requests, '
        'server crashes at random file-system operations, restarts, garbage collection); everything served about every revision is recorded when it '
        'is published and compared again after every event; distinct by the sequence of events')
ASSUMPTIONS = ['revisions are compared as served; at most 50 revisions per history because that is what the revision list shows']
REQUIRED = ['reads_checked', 'event_commit', 'event_abort', 'event_interrupt', 'event_resume', 'event_crash', 'event_gc', 'event_outdated', 'event_garbage', 'identical_again', 'same_files_again', 'long_histories']
NEEDS_REPO_MANAGER = True
QUICK_WALL = 16
THOROUGH_WALL = 700
EVENTS = ['commit'] * 4 + ['abort', 'interrupt', 'interrupt', 'interrupt', 'resume', 'resume', 'resume', 'resume', 'resume', 'outdated', 'garbage_request', 'crash', 'crash', 'uncleaned', 'gc', 'restart']

def plan(tier): return 240 if tier == 'quick' else 5000

def case(ctx):
    rng = ctx.rng
    world = World(ctx, repos = ('repo', 'other'), watch_server = True)
    life = Life(ctx, world)
    # the same changes in the other repository must not matter
    other = Life(ctx, world, repo = 'other', pool = life.pool)
    life.commit()
    long = ctx.index % 60 == 9
    if long: life.long(); ctx.count('long_histories')
    for step in range(4 if long else rng.choice([8, 12, 18]) if ctx.quick else rng.choice([12, 20, 30])):
        if rng.random() < 0.15:
            other.event(['commit', 'abort', 'interrupt', 'gc'])
        if rng.random() < 0.15 and len(life.hist.revs) > 1:
            # going back to the content of an earlier revision is a new revision
            old = rng.choice(life.hist.revs)
            puts = {p : d for p, d in old.files.items() if life.hist.files.get(p) != d}
            deletes = [p for p in life.hist.files if p not in old.files]
            if puts or deletes:
                from vlib.hist import client_commit, expected
                who, src = life.random_who()
                w = life.connect(who, src)
                h = client_commit(w, life.hist.head, puts, deletes, old.msg)
                w.close()
                ctx.check(h['status'] == 'ok', 'commit of an earlier content is refused', h)
                f, c = expected(life.hist.files, puts, deletes)
                life.hist.add(h['head'], who, old.msg, files = f, changes = c)
                life.pending = None
                ctx.count('identical_again')
        ev = life.event(['gc', 'restart', 'commit'] if long and not step % 2 else EVENTS)
        r = world.wire(src = '127.250.0.9')
        life.hist.verify(ctx, r, what = 'after ' + ev)
        r.close()
    if other.hist.revs:
        r = world.wire('other', src = '127.250.0.9')
        other.hist.verify(ctx, r, what = 'other repository')
    ctx.evaluated(tuple(life.trace))
    ctx.sample({'events' : life.trace, 'revisions' : len(life.hist.revs)})
