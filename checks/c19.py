""" the real journaling file system and its database driven directly with generated transactions, killed or given I/O errors at every file-system operation, then opened again (with further crashes), next to a model of the files """
import os, shutil, mmap, errno, random
from vlib import gen, core
from vlib.core import lib, KILL, HALF_KILL, ERR, ERR_FROM, HALF_ERR

LEVEL = 'fault_enumeration'
RULE = ('a case generates a few transactions of puts (bytes and streamed), moves and deletes over few paths, with the records of the client going along in half of the cases, counts the file-system operations, and repeats the last transaction killed or with an error at each operation (all of them, or a random share), '
        'followed by openings which may crash or fail as well. An evaluation is one such transaction with its recovery; distinct by operations of the transaction, position, kind of fault and number of faults in recovery')
ASSUMPTIONS = ['what the process had written is there after its death (no power failure)', 'the records of files are changed at the end of a transaction, as the client does', 'one instance at a time']
REQUIRED = ['kills', 'errors', 'recovery_kills', 'recovery_errors', 'rolled_back', 'committed', 'refused_operations', 'streams_broken', 'outcome_old', 'outcome_new', 'with_records', 'edited_meanwhile', 'cut_off_again']
QUICK_WALL = 18
THOROUGH_WALL = 700
CASE_TIMEOUT = 300

def plan(tier): return 120 if tier == 'quick' else 4000

class Broken(Exception): pass

def open_wc(base):
    from bversion.storage.client_db import client_db
    from bversion.storage.journaling_filesystem import journaling_filesystem
    from bversion.storage.client_filesystem_interface import client_filesystem_interface
    db = client_db(base + '/.bvn/manifest.db')
    jfs = journaling_filesystem(db, base, '.bvn')
    return db, jfs, client_filesystem_interface(db, jfs)

def tree(base):
    out = {}
    for d, dirs, files in os.walk(base):
        if d == base and '.bvn' in dirs: dirs.remove('.bvn')
        for f in files:
            with open(os.path.join(d, f), 'rb') as h: out[os.path.join(d, f)[len(base):]] = h.read()
    return out

def stream(data, broken):
    def w(path):
        with open(path, 'wb') as f:
            n = max(1, len(data) // 3)
            for i in range(0, len(data), n):
                f.write(data[i:i + n]); f.flush()
                if broken and i: raise Broken()
        if broken: raise Broken()
    return w

def dirs_of(p): return p.rsplit('/', 1)[0]

# ------------------------------------------------ generated transactions
def make_txn(rng, files, pool, records):
    """ [(op, args, possible)], files afterwards; possible False: has to fail and change nothing """
    ops = []; cur = dict(files)
    n = rng.choice([1, 2, 3, 5, 8])
    for _ in range(n):
        k = rng.choice(['put', 'put', 'put', 'move', 'move', 'delete', 'bad'])
        have = sorted(cur)
        if k in ('move', 'delete') and not have: k = 'put'
        if k == 'put':
            p = rng.choice(pool); d = gen.content(rng, big = 0.05)
            ops.append(('put', p, d, rng.choice(['bytes', 'stream']))); cur[p] = d
        elif k == 'move':
            s = rng.choice(have); d = rng.choice(pool)
            if s == d: continue
            ops.append(('move', s, d)); cur[d] = cur.pop(s)
        elif k == 'delete':
            p = rng.choice(have); ops.append(('delete', p)); del cur[p]
        elif not records:
            gone = [p for p in pool if p not in cur]
            bad = [('bad', 'put', '/dir')]
            if gone: bad += [('bad', 'delete', rng.choice(gone)), ('bad', 'move', rng.choice(gone), rng.choice(pool))]
            if have: bad += [('bad', 'move', rng.choice(have), '/dir')]
            ops.append(rng.choice(bad))
    if not ops:
        d = gen.unique(rng); ops.append(('put', pool[0], d, 'bytes')); cur[pool[0]] = d
    return ops, cur

def apply_one(jfs, o, broken = False):
    rel = o[1][1:]
    if o[0] == 'put': jfs.file_put_contents(rel, o[2] if o[3] == 'bytes' and not broken else stream(o[2], broken))
    elif o[0] == 'move': jfs.move_file(rel, o[2][1:])
    elif o[0] == 'delete': jfs.delete_file(rel)
    else:
        try:
            if o[1] == 'put': jfs.file_put_contents(o[2][1:], b'x')
            elif o[1] == 'delete': jfs.delete_file(o[2][1:])
            else: jfs.move_file(o[2][1:], o[3][1:])
        except OSError as e:
            if e.errno not in (errno.ENOENT, errno.EISDIR, errno.EEXIST, errno.ENOTDIR): raise
            return
        raise AssertionError('an impossible operation is accepted: %r' % (o,))

# ------------------------------------------------ running in a child
def execute(ctx, base, fn, arm, stage):
    """ fn(stage) in a child with faults """
    def body():
        lib.sh_reset()
        lib.sh_watch(os.path.realpath(base).encode())
        lib.sh_arm(*arm); lib.sh_active(1)
        try: r = ('fine', fn(stage))
        except (OSError, Broken) as e: r = ('error', repr(e))
        except Exception as e: # pylint: disable=broad-except
            import sqlite3
            if not isinstance(e, sqlite3.Error) and not lib.sh_fired(): raise
            r = ('error', repr(e))
        lib.sh_active(0)
        return r + (lib.sh_count(), lib.sh_fired())
    stage[0] = 0
    res = core.fork_call(body, timeout = 60)
    ctx.check(res[0] in ('ok', 'died'), 'the transaction ends in an unexpected way', res)
    return res[1] if res[0] == 'ok' else ('killed', None, None, 1)

BEFORE, COMMITTING, DONE, ROLLING, ROLLED = range(5)

def case(ctx):
    rng = ctx.rng
    base = ctx.dir + '/wc'
    os.makedirs(base + '/.bvn')
    records = rng.random() < 0.5
    pool = rng.sample(['/a', '/b', '/c', '/dir/a', '/dir/sub/x y', '/dir/ünï', '/tmp_1', '/1_a', '/' + 'l' * 240, '/back', '/.bk_idx', "/it's", '/dir/a.part'], rng.choice([3, 4, 6]))
    for p in pool + ['/dir/x']: os.makedirs(base + dirs_of(p), exist_ok = True)
    stage = mmap.mmap(-1, 1)
    files = {}; man = {}
    if records: ctx.count('with_records')

    def do_jfs(ops, end, breaks = None):
        def f(stage):
            db, jfs, _ = open_wc(base)
            try:
                jfs.begin()
                for i, o in enumerate(ops): apply_one(jfs, o, broken = i == breaks)
                if end == 'rollback':
                    stage[0] = ROLLING; jfs.rollback(); stage[0] = ROLLED; return 'rolled back'
                stage[0] = COMMITTING; jfs.commit(); stage[0] = DONE
            except OSError: # as the client does
                if stage[0] == BEFORE: stage[0] = ROLLING
                jfs.rollback()
                if stage[0] == ROLLING: stage[0] = ROLLED
                raise
            except Broken:
                stage[0] = ROLLING; jfs.rollback(); stage[0] = ROLLED
                raise
        return f

    def do_cfs(ops, end = None, breaks = None):
        """ every operation is a transaction of its own, the stage counts them """
        def f(stage):
            db, jfs, cfs = open_wc(base)
            for i, o in enumerate(ops):
                if o[0] == 'put': cfs.fs_put(o[1][1:], o[2] if o[3] == 'bytes' and i != breaks else stream(o[2], i == breaks), additional_manifest_data = {'server_file_hash' : str(hash_of(o[2]))})
                elif o[0] == 'move': cfs.fs_move(o[1][1:], o[2][1:])
                elif o[0] == 'delete': cfs.fs_delete(o[1][1:])
                stage[0] = i + 1
        return f

    def records_now():
        res = core.fork_call(lambda: {k : v['server_file_hash'] for k, v in __import__('bversion.storage.client_db', fromlist = ['x']).client_db(base + '/.bvn/manifest.db').get_manifest().items()}, timeout = 60)
        ctx.check(res[0] == 'ok', 'the records can not be read', res)
        return res[1]

    def states(ops, files, man):
        """ states after 0.. operations """
        out = [(dict(files), dict(man))]; f = dict(files); m = dict(man)
        for o in ops:
            rel = o[1][1:] if o[0] != 'bad' else None
            if o[0] == 'put': f[o[1]] = o[2]; m[rel] = str(hash_of(o[2]))
            elif o[0] == 'move': f[o[2]] = f.pop(o[1]); m[o[2][1:]] = m.pop(rel, None)
            elif o[0] == 'delete': del f[o[1]]; m.pop(rel, None)
            out.append((dict(f), dict(m)))
        return out

    def edit(crng, pool):
        p = crng.choice(pool); d = gen.unique(crng, 'edited')
        if os.path.exists(base + p):
            with open(base + p, 'rb') as f: given_up.add(f.read())
        with open(base + p, 'wb') as f: f.write(d)
        return p, d

    def survived(what, edited, before):
        """ what the user wrote between a crash and the recovery may be set aside, but it is there """
        kept = set(tree(base).values())
        for d, _, names in os.walk(base + '/.bvn/back'):
            for x in names:
                with open(os.path.join(d, x), 'rb') as f: kept.add(f.read())
        for p, d in edited: ctx.check(d in kept or d in given_up, what + ': what was written to a file before the recovery is lost', p)
        if len(edited) == 1: 
            for p, d in before.items(): ctx.check(d in kept or d in given_up, what + ': a content from before the transaction is lost', p)
        ctx.evaluated(('edited', what[-30:], len(edited)))

    # ------------------------------------------------ some transactions without faults
    def one(ops, end, breaks, what):
        """ without faults; returns nothing, checks """
        nonlocal files, man
        s = states(ops, files, man)
        r = execute(ctx, base, (do_cfs if records else do_jfs)(ops, end, breaks), (-1, 0, 0), stage)
        t = tree(base)
        if breaks is not None:
            ctx.check(r[0] == 'error', 'a broken stream counts as stored', r); ctx.count('streams_broken')
            want = s[breaks] if records else s[0]
        elif end == 'rollback' and not records: want = s[0]; ctx.count('rolled_back'); ctx.check(r[0] == 'fine', 'a roll-back fails', r)
        else: want = s[-1]; ctx.count('committed'); ctx.check(r[0] == 'fine', 'a transaction fails', r)
        ctx.check(t == want[0], what + ': the files are not what they have to be', diff(t, want[0], ops))
        if records: ctx.check(records_now() == want[1], what + ': the records are not what they have to be', (records_now(), want[1]))
        files, man = dict(want[0]), dict(want[1])
        ctx.count('refused_operations', sum(1 for o in ops if o[0] == 'bad'))
        ctx.evaluated(('plain', records, end, breaks is not None, tuple(o[0] for o in ops)[:5]))

    for _ in range(rng.choice([1, 2, 4])):
        ops, _after = make_txn(rng, files, pool, records)
        puts = [i for i, o in enumerate(ops) if o[0] == 'put']
        br = rng.choice(puts) if puts and rng.random() < 0.25 else None
        one(ops, rng.choice(['commit', 'commit', 'rollback']), br, 'transaction')

    # ------------------------------------------------ the one with faults
    ops, _after = make_txn(rng, files, pool, records)
    end = 'commit' if records or rng.random() < 0.8 else 'rollback'
    puts = [i for i, o in enumerate(ops) if o[0] == 'put']
    breaks = rng.choice(puts) if puts and rng.random() < 0.15 else None
    s = states(ops, files, man)
    saved = ctx.dir + '/saved'; shutil.copytree(base, saved)
    run = (do_cfs if records else do_jfs)(ops, end, breaks)
    r = execute(ctx, base, run, (-1, 0, 0), stage)
    n = r[2]
    points = [(k, a) for k in range(n) for a in (KILL, KILL, HALF_KILL, ERR, HALF_ERR, ERR_FROM)]
    budget = 60 if ctx.quick else 900
    if len(points) > budget: points = rng.sample(points, budget)
    leftovers = 0
    for k, action in points:
        crng = random.Random(repr((ctx.seed, ctx.index, k, action)))
        shutil.rmtree(base); shutil.copytree(saved, base)
        err = crng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])
        r = execute(ctx, base, run, (k, action, err), stage)
        at = stage[0]
        what = '%s, %s at operation %d of %d' % (end, {KILL : 'killed', HALF_KILL : 'killed half way', ERR : 'error', HALF_ERR : 'error half way', ERR_FROM : 'errors from there'}[action], k, n)
        ctx.note(what, r[:2], 'stage', at, [o[:2] for o in ops])
        ctx.count('kills' if r[0] == 'killed' else 'errors')
        faults = 0; edited = []; given_up = set()
        if not records and at in (BEFORE, ROLLING) and crng.random() < 0.2:
            # the user goes on with the files before it is opened again, twice
            edited.append(edit(crng, pool))
            if crng.random() < 0.5:
                execute(ctx, base, lambda stage: open_wc(base) and None, (-1, 0, 0), mmap.mmap(-1, 1))
                old = tree(base)
                ops2, _after = make_txn(crng, old, pool, False)
                execute(ctx, base, do_jfs(ops2, 'commit'), (crng.randrange(max(n, 10)), KILL, 0), stage)
                if stage[0] in (COMMITTING, DONE): given_up.update(old.values())
                edited.append(edit(crng, pool))
            ctx.count('edited_meanwhile')
        while faults < 3 and crng.random() < 0.4:
            a2 = crng.choice([KILL, HALF_KILL, ERR, HALF_ERR, ERR_FROM])
            r2 = execute(ctx, base, lambda stage: open_wc(base) and None, (crng.randrange(0, 40), a2, err), mmap.mmap(-1, 1))
            if not r2[3]: break
            faults += 1
            ctx.count('recovery_kills' if r2[0] == 'killed' else 'recovery_errors')
        r3 = execute(ctx, base, lambda stage: open_wc(base) and None, (-1, 0, 0), mmap.mmap(-1, 1))
        ctx.check(r3[0] == 'fine', what + ': the working copy can not be opened any more', r3)
        t = tree(base)
        if edited:
            survived(what, edited, s[0][0])
            continue
        if records:
            m = records_now()
            allowed = [s[at]] + ([s[at + 1]] if at + 1 < len(s) and at != breaks else [])
            ctx.check(any(t == x[0] for x in allowed), what + ': the files are a mixture', [diff(t, x[0], ops) for x in allowed])
            ctx.check((t, m) in allowed, what + ': files and records do not belong together', (sorted(t), m))
            new = (t, m) == s[-1]
        else:
            if at == DONE: allowed = [s[-1][0]]
            elif at == COMMITTING: allowed = [s[0][0], s[-1][0]]
            else: allowed = [s[0][0]]
            ctx.check(t in allowed, what + ': the files are not in the state before or after the transaction (stage %d)' % at, [diff(t, x, ops) for x in allowed])
            new = t == s[-1][0]
        ctx.count('outcome_new' if new else 'outcome_old')
        # it goes on from here
        if os.listdir(base + '/.bvn/tmp') and leftovers < (40 if ctx.quick else 400):
            # another one which is cut off as well; what the first one left behind must not be mixed into it
            again = ctx.dir + '/again'; shutil.copytree(base, again)
            ops2, _after = make_txn(crng, t, pool, records)
            s2 = states(ops2, t, dict(m) if records else {})
            for i in range(10):
                leftovers += 1
                if i: shutil.rmtree(base); shutil.copytree(again, base)
                k2 = crng.randrange(crng.choice([12, 30, 80]))
                r = execute(ctx, base, (do_cfs if records else do_jfs)(ops2, 'commit'), (k2, crng.choice([KILL, KILL, HALF_KILL, ERR]), err), stage)
                at = stage[0]; then = what + ', then another transaction which is cut off at %d' % k2
                ctx.note(then, r[:2], 'stage', at, [o[:2] for o in ops2])
                r3 = execute(ctx, base, lambda stage: open_wc(base) and None, (-1, 0, 0), mmap.mmap(-1, 1))
                ctx.check(r3[0] == 'fine', then + ': the working copy can not be opened any more', r3)
                t2 = tree(base)
                if records: allowed = s2[at:at + 2]; got = (t2, records_now())
                else: allowed = [s2[-1]] if at == DONE else [s2[0], s2[-1]] if at == COMMITTING else [s2[0]]; got = (t2,); allowed = [(x[0],) for x in allowed]
                ctx.check(got in allowed, then + ': the files are a mixture', [diff(t2, x[0], ops2) for x in allowed])
                ctx.count('cut_off_again')
            shutil.rmtree(again)
        elif crng.random() < 0.25:
            f0, m0 = files, man
            files, man = dict(t), dict(m) if records else {}
            ops2, _after = make_txn(crng, t, pool, records)
            one(ops2, crng.choice(['commit', 'rollback']), None, what + ', then another transaction')
            files, man = f0, m0
        ctx.evaluated((records, end, k * 30 // n, action, faults, tuple(o[0] for o in ops)[:4]))
    ctx.sample({'operations' : [o[:3] if o[0] == 'bad' else (o[0], o[1]) for o in ops], 'file_system_operations' : n, 'faults' : len(points), 'with_records' : records})

def hash_of(d):
    from vlib.wire import sha
    return sha(d)

def diff(t, want, ops):
    return {p : (None if p not in t else (len(t[p]), t[p][:40]), None if p not in want else (len(want[p]), want[p][:40])) for p in set(t) | set(want) if t.get(p) != want.get(p)}, [o[:2] for o in ops]
