""" object census and full read-back around the real gc command, which is also killed, refused system calls, and stopped at its operations while clients read and try to commit """
import os, json
from vlib import gen
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM, Pause
from vlib.hist import client_commit, expected, adopt_head
from vlib.life import Life, changeset
from vlib.world import World, run_repo, store_objects
from vlib.wire import WireError, sha

LEVEL = 'exploration'
RULE = ('a case builds a random history (some of more than a hundred revisions) with every kind of leftover (uploads replaced or dropped inside a published commit, interrupted commits at every stage, crashes of the server, a lost transient data base), in one or two '
        'repositories, with or without a separate path of the transient data base, and runs the real gc command: undisturbed, killed or with a failing system call at the n-th of its operations, stopped at an operation while readers and a committing client come, '
        'or while a commit is going on, or with the head or an index object missing. Then every revision is read back, the pending commit is resumed or replaced, and the store is compared with what is reachable. An evaluation is one gc run; '
        'distinct by mode, kinds of leftovers, objects removed and kept')
ASSUMPTIONS = ['reachable objects are determined by an own walk over the stored format', 'index objects of a pending commit may stay']
REQUIRED = ['gc_runs', 'garbage_removed', 'pending_kept', 'resumed_after_gc', 'replaced_after_gc', 'waited_for_commit', 'killed', 'failed_calls', 'stopped_inside', 'commit_refused_inside', 'lost_database', 'path_override', 'gc_damaged', 'long_histories']
NEEDS_REPO_MANAGER = True
QUICK_WALL = 18
THOROUGH_WALL = 700

def plan(tier): return 260 if tier == 'quick' else 4000

def walk(path, head):
    """ (index objects, file objects) reachable from the head """
    index = set(); files = set()
    def load(h):
        index.add(h)
        with open(os.path.join(path, 'index', h[:2], h[2:])) as f: return json.load(f)
    def tree(h):
        if h in index: return
        t = load(h)
        for f in t['files'].values(): files.add(f['hash'])
        for d in t['dirs'].values(): tree(d)
    while head != 'root':
        c = load(head); tree(c['tree_root']); head = c['parent']
    return index, files

def names(path, kind): return {k.replace('/', '') for k in store_objects(path)[kind]}

def leftovers(ctx, world, life):
    """ a commit that replaces and drops some of its uploads before it is published """
    rng = ctx.rng
    who, src = life.random_who()
    w = world.wire(life.repo, who, src)
    h, partial = w.begin(life.hist.head)
    ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
    for p in partial or []: w.delete([p['path']])
    gone = [p['path'] for p in partial or [] if p['path'] in life.hist.files]
    puts, deletes = changeset(rng, {}, life.pool, 3)
    puts = {p : d for p, d in puts.items() if gen.compatible(p, life.hist.files) or p in life.hist.files}
    for p in puts: w.push(p, gen.unique(rng, 'replaced'))
    extra = '/dropped%d' % rng.randrange(10**6)
    w.push(extra, gen.unique(rng, 'dropped')); w.delete([extra])
    for p, d in puts.items(): w.push(p, d)
    h = w.commit('with leftovers')
    w.close()
    ctx.check(h['status'] == 'ok', 'a commit is refused', h)
    f, c = expected(life.hist.files, puts, [p for p in gone if p not in puts])
    if c: life.hist.add(h['head'], who, 'with leftovers', files = f, changes = c)
    life.pending = None

def case(ctx):
    rng = ctx.rng
    override = rng.random() < 0.25
    def extra(config):
        if override:
            for i, r in enumerate(config['repositories'].values()): r['transient_db_path_override'] = os.path.join(ctx.dir, 'transient%d.db' % i)
    repos = ('repo', 'other') if rng.random() < 0.4 else ('repo',)
    world = World(ctx, repos = repos, watch_server = True, extra_config = extra)
    if override: ctx.count('path_override')
    life = Life(ctx, world)
    other = Life(ctx, world, repo = 'other', pool = life.pool) if len(repos) > 1 else None
    path = world.store['repo']
    if ctx.index % 40 == 9: life.long(); ctx.count('long_histories')
    for round in range(rng.choice([1, 2])):
        for _ in range(rng.choice([0, 1, 2, 3])): life.event(['commit', 'abort', 'interrupt', 'resume', 'crash', 'uncleaned', 'commit'])
        if rng.random() < 0.6: leftovers(ctx, world, life)
        if other:
            for _ in range(rng.choice([1, 2])): other.event(['commit', 'interrupt'])
        if rng.random() < 0.6: life.event(['interrupt', 'interrupt', 'crash', 'uncleaned'])
        lost = rng.random() < 0.2
        if lost:
            world.server.kill()
            db = world.config['repositories']['repo'].get('transient_db_path_override') or path + '/server_transient.db'
            for x in (db, db + '-journal', db + '-wal', db + '-shm'):
                if os.path.exists(x): os.remove(x)
            life.pending = None
            ctx.count('lost_database')
            if not world.server.start(): ctx.fail('the server does not start without its transient data base')
        gc(ctx, world, life, other, lost)
    ctx.sample({'events' : life.trace, 'revisions' : len(life.hist.revs)})

def look(ctx, world, life, what):
    r = world.wire(life.repo, src = '127.250.0.9')
    life.hist.verify(ctx, r, what = what)
    r.close()

def gc(ctx, world, life, other, lost):
    rng = ctx.rng; hist = life.hist
    config = {'repositories' : world.config['repositories']}
    path = world.store['repo']
    before = {k : names(path, k) for k in ('index', 'files')}
    reach = walk(path, hist.head)
    mode = rng.choice(['plain', 'plain', 'kill', 'error', 'stop', 'commit', 'commit', 'offline', 'offline', 'race', 'race'])
    owner = None; offered = None
    who = life.pending[:2] if life.pending else life.random_who()
    if mode == 'commit':
        # a client is in the middle of a commit
        owner = world.wire('repo', *who)
        h, partial = owner.begin(hist.head)
        ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
        puts, deletes = changeset(rng, hist.files, life.pool, 3)
        gone = [p['path'] for p in partial or [] if p['path'] in hist.files]
        for p in partial or []: owner.delete([p['path']])
        puts = {p : d for p, d in puts.items()}
        order = list(puts); cut = rng.randrange(len(order) + 1)
        for p in order[:cut]: owner.push(p, puts[p])
        store = store_objects(path)
        finish = rng.random() < 0.5
        def complete():
            for p in order[cut:]: owner.push(p, puts[p])
            if deletes: owner.delete(deletes)
            if owner.commit('while gc waits')['status'] != 'ok': raise Exception('commit fails')
        r = run_repo(config, 'gc', max_sleeps = 1 if finish else 0, on_sleep = complete)
        if not finish:
            ctx.check(r.exc == 'WouldWait', 'gc runs, or ends in %r, while a client is committing' % r, r.extra.get('tb'))
            ctx.check(store_objects(path) == store, 'gc removed something while a client is committing')
            complete()
        else: ctx.check(r.ok, 'gc does not end well after the commit it waited for: %r' % r, r.extra.get('tb'))
        ctx.count('waited_for_commit')
        owner.close()
        f, c = expected(hist.files, puts, sorted(set(deletes) | {g for g in gone if g not in puts}))
        rd = world.wire('repo', src = '127.250.0.9')
        if c: ctx.check(adopt_head(ctx, rd, hist, [(who[0], 'while gc waits', f, c)], 'commit during gc'), 'the commit that gc met was not published')
        rd.close()
        life.pending = None
        look(ctx, world, life, 'commit during gc')
        ctx.evaluated(('commit', finish, cut, len(order)))
        if not finish:
            r = run_repo(config, 'gc'); ctx.check(r.ok, 'gc fails: %r' % r, r.extra.get('tb'))
        ctx.count('gc_runs')
        final(ctx, world, life, path)
        return
    if mode == 'offline': world.server.kill()
    if mode == 'offline' and hist.head != 'root' and rng.random() < 0.6:
        # the head or an object of the history is missing: whatever is still there has to stay, it may be repaired from a backup
        h = rng.choice(sorted(reach[0]))
        lost_one = path + '/head' if rng.random() < 0.5 else os.path.join(path, 'index', h[:2], h[2:])
        os.rename(lost_one, ctx.dir + '/aside')
        r = run_repo(config, 'gc')
        os.rename(ctx.dir + '/aside', lost_one)
        left = {k : names(path, k) for k in ('index', 'files')}
        ctx.check(reach[0] <= left['index'] and reach[1] <= left['files'], 'gc of a repository which misses its head or an index object removed objects of published revisions', (os.path.basename(lost_one), len(hist.revs), r))
        ctx.count('gc_damaged'); ctx.evaluated(('damaged', lost_one[-4:] == 'head', r.exc, min(len(hist.revs), 5)))
    watch = [path]
    if mode in ('kill', 'error'):
        r = run_repo(config, 'gc', arm = (rng.randrange(10), KILL if mode == 'kill' else rng.choice([ERR, ERR_FROM]), rng.choice([5, 28, 13])), watch = watch)
        fired = r.kind == 'killed' if mode == 'kill' else r.extra['fired']
        ctx.note('gc', mode, r)
        if fired: ctx.count('killed' if mode == 'kill' else 'failed_calls')
        look(ctx, world, life, 'gc cut off')
        ctx.evaluated((mode, bool(fired), r.exc))
    elif mode == 'race':
        # somebody commits when gc is just about to take the lock
        problem = []
        def on_lock():
            try:
                if other and rng.random() < 0.2: other.event(['commit'])
                for _ in range(rng.choice([1, 1, 2])): life.event(['commit', 'commit', 'resume', 'interrupt', 'abort'])
            except BaseException as e: problem.append(e) # pylint: disable=broad-except
        pause = Pause(on_lock, 0, only = ('lock',))
        r = run_repo(config, 'gc', pause = pause, watch = [path], max_sleeps = 3)
        pause.close()
        if pause.fired: ctx.count('committed_before_lock')
        for p in problem: raise p
        ctx.check(r.ok, 'gc fails: %r' % r, r.extra.get('tb'))
        look(ctx, world, life, 'commit before gc got the lock')
        reach = walk(path, hist.head)
        ctx.evaluated(('race', pause.fired))
    elif mode == 'stop':
        problem = []
        def on_pause():
            try:
                look(ctx, world, life, 'while gc runs')
                w = world.wire('repo', 'bob', '127.250.0.6')
                h, _ = w.begin(hist.head)
                if h['status'] == 'ok': problem.append('a client can commit while gc is removing objects')
                else: ctx.count('commit_refused_inside')
                w.close()
            except BaseException as e: problem.append(e) # pylint: disable=broad-except
        pause = Pause(on_pause, rng.choice([0, 0, 1, 2, 3, 5]), only = ('unlink', 'rmdir', 'rename'))
        # the removals are what has to be watched, the lock and the data base are opened before
        r = run_repo(config, 'gc', pause = pause, watch = [path + '/index', path + '/files'])
        pause.close()
        if pause.fired: ctx.count('stopped_inside')
        for p in problem:
            if isinstance(p, str): ctx.fail(p)
            raise p
        ctx.check(r.ok, 'gc fails: %r' % r, r.extra.get('tb'))
        ctx.evaluated(('stop', pause.fired))
    r = run_repo(config, 'gc')
    ctx.note('gc', r)
    ctx.check(r.ok, 'gc fails: %r' % r, r.extra.get('tb'))
    ctx.count('gc_runs')
    if mode == 'offline' and not world.server.start(): ctx.fail('the server does not start after gc')
    look(ctx, world, life, 'after gc')
    if other:
        look(ctx, world, other, 'after gc, other repository')
    after = {k : names(path, k) for k in ('index', 'files')}
    ctx.count('garbage_removed', len(before['files'] - after['files']) + len(before['index'] - after['index']))
    if hist.head != 'root':
        ctx.check(reach[0] <= after['index'] and reach[1] <= after['files'], 'gc removed objects of published revisions')
    # what can still be resumed is asked from the server
    final(ctx, world, life, path)
    ctx.evaluated((mode, lost, len(before['files']) - len(after['files']), len(before['index']) - len(after['index'])))

def final(ctx, world, life, path):
    rng = ctx.rng; hist = life.hist
    after = {k : names(path, k) for k in ('index', 'files')}
    reach = walk(path, hist.head)
    who = life.pending[:2] if life.pending else ('bob', '127.250.0.6')
    replace = rng.random() < 0.4
    if replace: who = ('bob', '127.250.0.7')
    w = world.wire('repo', *who)
    h, partial = w.begin(hist.head)
    ctx.check(h['status'] == 'ok', 'begin_commit is refused after gc', h)
    # a head that was never set can not tell garbage from the rest: gc leaves the store alone in that case
    garbage_files = after['files'] - reach[1]; garbage_index = after['index'] - reach[0]
    if not replace and not partial and not life.pending:
        ctx.check(not garbage_files, 'gc left objects that belong to nothing', sorted(garbage_files))
        ctx.check(not garbage_index, 'gc left index objects that belong to nothing', sorted(garbage_index))
    if partial and not replace:
        # publish it with what was sent before gc only
        ctx.count('pending_kept', len(partial)); ctx.count('resumed_after_gc')
        changed = {p['path'] : p for p in partial}
        puts = {}
        for p in partial:
            d = life.pending[2].get(p['path']) if life.pending else None
            if d is None or sha(d) != p['hash']: w.delete([p['path']]); changed.pop(p['path'])
            else: puts[p['path']] = d
        dropped = [p['path'] for p in partial if p['path'] not in changed and p['path'] in hist.files]
        h = w.commit('resumed after gc')
        ctx.check(h['status'] == 'ok', 'a commit can not be resumed after gc', h)
        f, c = expected(hist.files, puts, dropped)
        if c: hist.add(h['head'], who[0], 'resumed after gc', files = f, changes = c)
    else:
        if life.pending: ctx.count('replaced_after_gc')
        puts, deletes = changeset(rng, hist.files, life.pool, 2)
        for p in partial or []: w.delete([p['path']])
        dropped = [p['path'] for p in partial or [] if p['path'] in hist.files and p['path'] not in puts]
        for p, d in puts.items(): w.push(p, d)
        if deletes: w.delete(deletes)
        h = w.commit('new after gc')
        ctx.check(h['status'] == 'ok', 'no commit is possible after gc', h)
        f, c = expected(hist.files, puts, sorted(set(deletes) | set(dropped)))
        if c: hist.add(h['head'], who[0], 'new after gc', files = f, changes = c)
    w.close()
    life.pending = None
    look(ctx, world, life, 'commit after gc')
    # now nothing is pending: everything that is not published has to go
    r = run_repo({'repositories' : world.config['repositories']}, 'gc')
    ctx.check(r.ok, 'gc fails: %r' % r, r.extra.get('tb'))
    ctx.count('gc_runs')
    if hist.head != 'root':
        index, files = walk(path, hist.head)
        now = {k : names(path, k) for k in ('index', 'files')}
        ctx.check(now['files'] == files, 'after gc the store does not hold exactly the published contents', {'left' : sorted(now['files'] - files), 'gone' : sorted(files - now['files'])})
        ctx.check(now['index'] == index, 'after gc the index does not hold exactly the published objects', {'left' : sorted(now['index'] - index), 'gone' : sorted(index - now['index'])})
    look(ctx, world, life, 'after the last gc')
