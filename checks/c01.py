""" C01: commits are atomic on the server, whatever the crash point """
import os, random, re, errno
from vlib import gen
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM, OPS, Inconclusive
from vlib.world import World
from vlib.hist import Hist, client_commit, expected, adopt_head, simple_commit
from vlib.wire import WireError
import copy

LEVEL = 'fault_enumeration'
RULE = ('a case is a history plus one operation (commit, resumed commit, abort, roll-back of somebody else\'s or an outdated cancelled commit, '
        'empty commit); it is executed once to count its file-system operations (those of sqlite included) and then again and again with the '
        'server killed before, or half way through, the k-th of them, or that operation (or it and all that follow) failing with a disk error in a server which goes on; after a restart everything is compared with the model and another client '
        'commits, possibly crashing as well. An evaluation is one crash or error; distinct by scenario kind, crash operation number, half, and outcome')
ASSUMPTIONS = ['a crash is the death of the server process, the operating system survives (fsync ordering is not modelled)']
REQUIRED = ['disk_errors', 'crashes', 'outcome_old', 'outcome_new', 'recovery_commits', 'crash_in_recovery', 'same_again']
QUICK_WALL = 20
THOROUGH_WALL = 800
KINDS = ['commit', 'resume', 'abort', 'takeover', 'outdated', 'empty', 'first']

LISTING = 100     # half way through the k-th write of an index object

def plan(tier): return [KINDS[i % len(KINDS)] for i in range(56 if tier == 'quick' else 420)]

def changeset(rng, files, pool, n):
    puts = {}; deletes = []
    for _ in range(n):
        if files and rng.random() < 0.3:
            p = rng.choice(sorted(files))
            if p not in puts and p not in deletes: deletes.append(p)
        else:
            p = rng.choice(sorted(files)) if files and rng.random() < 0.35 else rng.choice(pool)
            if p in deletes or not gen.compatible(p, list(files) + list(puts)): continue
            data = gen.content(rng, big = 0.02)
            if files and rng.random() < 0.2: data = files[rng.choice(sorted(files))]
            puts[p] = data
    return puts, deletes

def case(ctx):
    rng = ctx.rng; kind = ctx.param
    world = World(ctx, watch_server = True)
    hist = Hist()
    pool = gen.paths(rng, rng.choice([4, 7, 10]))
    w = world.wire(user = 'ann', src = '127.250.0.2')
    if kind != 'first':
        for i in range(rng.choice([1, 1, 2, 3])):
            puts, deletes = changeset(rng, hist.files, pool, rng.choice([2, 3, 5]))
            if not puts and not deletes: puts = {pool[0] : gen.unique(rng)}
            h = client_commit(w, hist.head, puts, deletes, 'base %d' % i)
            f, c = expected(hist.files, puts, deletes)
            hist.add(h['head'], 'ann', 'base %d' % i, files = f, changes = c)

    # an interrupted attempt
    pending = None
    if kind in ('resume', 'takeover', 'outdated') or rng.random() < 0.15:
        pending = changeset(rng, hist.files, pool, 4)
        if not pending[0]: pending = ({pool[1] : gen.unique(rng)} if gen.compatible(pool[1], hist.files) else {sorted(hist.files)[0] : gen.unique(rng)}, [])
        client_commit(w, hist.head, pending[0], pending[1], 'x', stop_before = 1 + len(pending[0]) + (1 if pending[1] else 0) - (rng.random() < 0.3))
    w.close()

    # the operation
    actor = 'bob' if kind == 'takeover' else 'ann'
    puts, deletes = changeset(rng, hist.files, pool, rng.choice([2, 3, 4, 6]))
    if kind == 'resume' and rng.random() < 0.7: # finishing what was started, with some differences
        puts = dict(pending[0], **{p : d for p, d in puts.items() if gen.compatible(p, pending[0]) and p not in pending[1]}) ; deletes = [d for d in set(deletes) | set(pending[1]) if d not in puts]
    if not puts: puts = {rng.choice(sorted(hist.files)) if hist.files else pool[0] : gen.unique(rng)}
    deletes = [d for d in deletes if d not in puts]
    new = expected(hist.files, puts, deletes)
    msg = rng.choice(['', 'operation', 'öperation'])

    def operation(w):
        """ the last acknowledged thing: None, 'ok' (of a commit) """
        if kind == 'abort':
            h, _ = w.begin(hist.head)
            if h['status'] != 'ok': return h
            for p, d in puts.items(): w.push(p, d)
            if deletes: w.delete(deletes)
            return w.abort()
        if kind == 'outdated':
            return w.begin('0' * 64)[0]
        if kind == 'empty':
            h, partial = w.begin(hist.head)
            if h['status'] != 'ok': return h
            if any(p['status'] != 'new' for p in partial):
                h = w.abort()
                if h['status'] != 'ok': return h
                h, partial = w.begin(hist.head)
                if h['status'] != 'ok': return h
            fresh = [p for p in puts if p not in hist.files]
            for step in [lambda p = p: w.delete([p['path']]) for p in partial] + [lambda p = p: w.push(p, puts[p]) for p in fresh] + ([lambda: w.delete(fresh)] if fresh else []):
                h = step()
                if h['status'] != 'ok': return h
            return w.commit(msg)
        return client_commit(w, hist.head, puts, deletes, msg)

    publishes = kind not in ('abort', 'outdated', 'empty')

    def run(arm):
        """ executes the operation with a crash, returns the final reply or None """
        w = world.wire(user = actor, src = '127.250.0.2')
        if arm[0] < 0: world.server.ask('log', log) # the login writes as well
        if arm[1] == LISTING:
            world.server.ask('only', 1 << OPS.index('write'), index)
            arm = (arm[0], HALF_KILL, 0)
        world.server.arm(*arm)
        try: return operation(w)
        except WireError: return None
        finally: w.close()

    # ------------------------------------------------ count
    backup = os.path.join(ctx.dir, 'backup')
    world.server.kill()
    world.copy_store(backup)
    world.server.start()
    log = os.path.join(ctx.dir, 'operations')
    h = run((-1, 0))
    n, _ = world.server.opcount()
    world.server.ask('log', None)
    ctx.check(h is not None, 'the operation breaks the connection without any fault', open(world.server.log_path).read()[-1500:])
    if kind != 'outdated': ctx.check(h['status'] == 'ok', 'the operation is refused without any fault', h)
    ctx.count('operations_counted', n)
    with open(log, errors = 'replace') as f: ops = [l.rstrip('\n').split(' ', 2)[1:] for l in f if l.startswith('OP ')][:n]

    # ------------------------------------------------ enumerate
    # those on the objects and the head come first, most of the others are made by sqlite
    index = world.store['repo'] + '/index'
    key = []; own = []; other = []
    for k, (op, name) in enumerate(ops + [('end', '')]):
        l = other if '.db' in name else own
        l.append((k, KILL))
        if op in ('write', 'sendfile', 'copy'):
            if op == 'write' and name.startswith(index): key.append((len(key), LISTING))
            else: l.append((k, HALF_KILL))
    rng.shuffle(key); rng.shuffle(own); rng.shuffle(other)
    # half way through a write of something which is not an object: the head, journals, whatever else there is
    rare = [p for p in own if p[1] == HALF_KILL and not re.search('[0-9a-f]{20}', ops[p[0]][1])][:6]
    # whatever is done to an object that was there already
    there = [p for p in own if p[0] < n and ops[p[0]][0] in ('open', 'write', 'sendfile', 'copy', 'trunc', 'rename', 'unlink') and re.search('/(files|index)/[0-9a-f]{2}/', ops[p[0]][1]) and os.path.isfile(ops[p[0]][1].replace(os.path.realpath(os.path.join(ctx.dir, 'srv')), backup))]
    own = rare + there[:6] + [p for p in own if p not in rare and p not in there[:6]]; ctx.count('half_written_others', len(rare)); ctx.count('existing_touched', len(there))
    budget = 40 if ctx.quick else 600
    key = key[:budget // 4]; left = budget - len(key)
    n_own = max(left * 2 // 3, left - len(other))
    points = key + own[:n_own]; points += other[:budget - len(points)]
    ctx.count('half_written_listings', len(key))
    # the disk fails and the server goes on
    points += [(k, rng.choice([ERR, ERR, ERR_FROM])) for k, _ in (key[:0] + rng.sample(own + other, min(len(own + other), 10 if ctx.quick else 150)))]
    # always among them: a write of what is neither an object nor sqlite's (the head)
    few = [(k, a) for a in (ERR, ERR_FROM) for k, (op, name) in enumerate(ops) if op == 'write' and '.db' not in name and not re.search('[0-9a-f]{20}', name)]
    rng.shuffle(few)
    for p in few[:4]:
        if p not in points: points.append(p)
    ctx.count('head_write_errors', len(few[:4]))
    rng.shuffle(points)

    for k, action in points:
        crng = random.Random(repr((ctx.seed, ctx.index, k, action)))
        world.server.kill()
        world.restore_store(backup)
        world.server.start()
        err = crng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]) if action in (ERR, ERR_FROM) else 0
        h = run((k, action, err))
        died = not world.server.alive()
        if not died: world.server.ask('only', 0, ''); world.server.disarm()
        ctx.note('crash at operation', k, 'action', action, 'reply', h, 'died', died)
        if err:
            ctx.check(not died, 'a disk error (operation %d) ends the server' % k, (err, open(world.server.log_path).read()[-1500:]))
            ctx.count('disk_errors')
        elif died: ctx.count('crashes')
        else: ctx.count('crash_point_after_the_end')
        model = copy.copy(hist); model.revs = list(hist.revs)
        if err and crng.random() < 0.6: world.wait_unlocked('repo')
        else: world.server.kill()
        if not world.server.alive() and not world.server.start():
            ctx.fail('the server does not start again after the crash', open(world.server.log_path).read()[-2000:])
        r = world.wire(user = 'bob', src = '127.250.0.3')
        what = '%s, operation %d of %d fails (%s%s)' % (kind, k, n, errno.errorcode[err], ', like all that follow' if action == ERR_FROM else '') if err else '%s, killed at operation %d of %d (%s)' % (kind, k, len(key) if action == LISTING else n, 'before' if action == KILL else 'half way, of the index' if action == LISTING else 'half way')
        moved = adopt_head(ctx, r, model, [(actor, msg, new[0], new[1])] if publishes else [], what)
        if h is not None and h['status'] == 'ok' and publishes:
            ctx.count('crashes_after_ack')
            ctx.check(moved and h['head'] == model.head, what + ': the commit was acknowledged but is not there', (h, model.head))
        ctx.count('outcome_new' if moved else 'outcome_old')
        model.verify(ctx, r, revs = model.revs[-3:], what = what)
        r.close()

        # ---------------- recovery, possibly crashing as well
        crashes = 0
        for attempt in range(4):
            who, src = crng.choice([('ann', '127.250.0.2'), ('ann', '127.250.0.2'), ('bob', '127.250.0.2'), ('ann', '127.250.0.4'), ('bob', '127.250.0.5')])
            same = not moved and (action == LISTING or crng.random() < 0.5)
            if same and (action == LISTING or crng.random() < 0.6): who, src = actor, '127.250.0.2'
            if same: ctx.count('same_again')
            if same: rp, rd = dict(puts), list(deletes)
            else:
                rp, rd = changeset(crng, model.files, pool, 3)
                if not rp and not rd: rp = {crng.choice(sorted(model.files)) if model.files else pool[0] : gen.unique(crng)}
            rd = [d for d in rd if d in model.files]
            rnew = expected(model.files, rp, rd)
            w = world.wire(user = who, src = src)
            armed = attempt < 3 and crng.random() < (0.1 if action == LISTING else 0.35)
            if armed: world.server.arm(crng.randrange(0, 2 * n + 20), crng.choice([KILL, HALF_KILL]), 0)
            try:
                h = client_commit(w, model.head, rp, rd, 'recovery %d' % attempt)
            except WireError:
                h = None
            w.close()
            dead = not world.server.alive()
            if not dead: world.server.disarm()
            if dead:
                ctx.count('crash_in_recovery'); crashes += 1
                ctx.check(armed, what + ': the server died by itself')
                if not world.server.start(): ctx.fail('the server does not start again', open(world.server.log_path).read()[-2000:])
            else:
                ctx.check(h is not None, what + ': a commit after the crash breaks the connection', open(world.server.log_path).read()[-2500:])
                ctx.check(h['status'] == 'ok', what + ': a client can not commit after the crash', h)
            r = world.wire(user = 'bob', src = '127.250.0.3')
            moved = adopt_head(ctx, r, model, [(who, 'recovery %d' % attempt) + rnew], what + ', then recovery')
            if not dead:
                ctx.check(moved and h['head'] == model.head, what + ': the commit after the crash is not the head', (h, model.head))
                ctx.count('recovery_commits')
            model.verify(ctx, r, revs = model.revs[-3:], what = what + ', after the recovery')
            r.close()
            if not dead: break
        ctx.evaluated((kind, k * 40 // (n + 1), action, moved, crashes))
    ctx.sample({'kind' : kind, 'operations' : n, 'crash_points_tried' : len(points), 'puts' : sorted(puts), 'deletes' : deletes})
