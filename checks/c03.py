""" C03: a commit changes exactly what was asked for """
from vlib import gen
from vlib.world import World
from vlib.hist import Hist, do_ops
from vlib.wire import WireError

LEVEL = 'exploration'
RULE = ('a case is a chain of commits over the wire against a real server with random uploads, deletions, repetitions, senseless requests and '
        'hostile but legal names and contents; the whole history is compared with a reference model after every commit; a case is non-trivial '
        'and distinct by its sequence of operation kinds per commit and the resulting change statuses')
ASSUMPTIONS = ['single client at a time (concurrency is judged by C05 and C06)', 'names are valid UTF-8 without CR LF']
REQUIRED = ['commits_published', 'commits_empty', 'reads_checked', 'op_push', 'op_delete', 'senseless_deletes', 'repeated_paths', 'same_directory', 'twins']
QUICK_WALL = 15
THOROUGH_WALL = 700

def plan(tier): return 900 if tier == 'quick' else 4000

def random_ops(ctx, rng, hist, pool):
    ops = []
    files = hist.files
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9])):
        r = rng.random()
        current, _ = Hist.outcome(files, ops)
        if ctx.index % 20 == 3 and 'twins' not in ctx.counts or r > 0.999:
            # large ones which are alike
            size = rng.choice([70000, 300000, (1 << 20) + 1, (5 << 20) + 3, 9 << 20, 9 << 20, 17 << 20]); at = rng.choice([size - 1, size - 1, rng.randrange(size), size // 2])
            one = gen.unique(rng).ljust(16) + bytes([rng.randrange(256)]) * size; one = one[:size]
            two = one[:at] + bytes([one[at] ^ 1]) + one[at + 1:]
            for p, data in (('/twin1', one), ('/twin2', two)):
                if gen.compatible(p, current): ops.append(('push', p, data))
            ctx.count('twins')
        elif r < 0.1 and any(x.count('/') > 1 for x in current): # another directory that is the same
            d = rng.choice(sorted(x for x in current if x.count('/') > 1)).rsplit('/', 1)[0]
            to = rng.choice(['/copy', '/copy/' + gen.name(rng), '/' + gen.name(rng)])
            l = [(to + x[len(d):], current[x]) for x in sorted(current) if x.startswith(d + '/')]
            if any(not gen.compatible(q, list(current) + [y for y, _ in l]) for q, _ in l): continue
            ops += [('push', q, x) for q, x in l]
            ctx.count('same_directory')
        elif r < 0.55:
            if rng.random() < 0.4 and files: p = rng.choice(sorted(files))
            elif rng.random() < 0.4 and ops and ops[-1][0] == 'push': p = ops[-1][1]
            else: p = rng.choice(pool)
            if not gen.compatible(p, current): continue
            if any(o[0] == 'push' and o[1] == p for o in ops): ctx.count('repeated_paths')
            data = gen.content(rng)
            if p in files and rng.random() < 0.15: data = files[p]
            ops.append(('push', p, data)); ctx.count('op_push')
        else:
            l = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                q = rng.random()
                if q < 0.6 and current: l.append(rng.choice(sorted(current)))
                elif q < 0.75: l.append(rng.choice(pool))
                elif q < 0.85: l.append('/no/such/' + gen.name(rng))
                elif q < 0.9 and files: l.append(rng.choice(sorted(files)).rsplit('/', 1)[0] or '/') # a directory
                else: l.append(rng.choice(['', '/', 'relative', '//', "/'; drop table files; --", '/%']))
            if rng.random() < 0.2 and l: l.append(l[0])
            if any(x not in current for x in l): ctx.count('senseless_deletes')
            ops.append(('delete', l)); ctx.count('op_delete')
    return ops

def case(ctx):
    rng = ctx.rng
    world = World(ctx)
    users = ['ann', 'bob']
    hist = Hist()
    pool = gen.paths(rng, rng.choice([4, 8, 14]))
    sig = []
    conns = {u : world.wire(user = u, src = '127.250.0.%d' % (i + 2)) for i, u in enumerate(users)}
    reader = world.wire(src = '127.250.0.9')
    for _ in range(rng.choice([3, 5, 8])):
        user = rng.choice(users); w = conns[user]
        ops = random_ops(ctx, rng, hist, pool)
        msg = rng.choice(['', 'message', 'mêssage ' + gen.name(rng), 'multi\nline', 'x' * 900, ' '])
        h, partial = w.begin(hist.head)
        ctx.check(h['status'] == 'ok' and not partial, 'begin_commit on the head is refused or resumes something', (h, partial))
        ctx.note('commit by', user, [(o[0], o[1], len(o[2]) if o[0] == 'push' else '') for o in ops])
        st = do_ops(w, ops)
        # A list of deletions or an upload is executed or refused as a whole; refused ones did nothing
        done = [o for o, s in zip(ops, st) if s == 'ok']
        for o, s in zip(ops, st):
            ctx.check(s == 'ok', 'a legal operation was refused', o[:2])
        files, changes = Hist.outcome(hist.files, done)
        mode = 'abort' if rng.random() < 0.12 else 'commit'
        h = w.commit(msg, mode)
        ctx.check(h['status'] == 'ok', 'commit is refused', h)
        if mode == 'abort':
            ctx.count('commits_aborted')
        elif not changes:
            ctx.count('commits_empty')
            ctx.check(h['head'] == hist.head, 'a commit that changes nothing created a revision', h)
        else:
            ctx.count('commits_published')
            ctx.check(h['head'] not in ('root', hist.head), 'a commit with changes created no revision', (h, changes))
            hist.add(h['head'], user, msg, files = files, changes = changes)
        sig.append((mode, tuple((o[0], len(o[1]) if o[0] == 'delete' else 0) for o in ops), tuple(sorted(changes.values()))))
        hist.verify(ctx, reader, revs = hist.revs[-2:], what = 'after the commit')
    hist.verify(ctx, reader, what = 'at the end')
    ctx.evaluated(tuple(sig))
    ctx.sample({'commits' : [{'by' : r.by, 'changes' : r.changes} for r in hist.revs[:3]]})
