""" offline checker over everything concurrent readers were told, and snapshots taken by readers and real clients at every request of a commit """
import os, threading, random, json
from vlib import gen
from vlib.core import Inconclusive
from vlib.cw import Team
from vlib.diverge import base
from vlib.hist import Hist, client_commit, expected
from vlib.life import changeset
from vlib.wire import Wire, WireError, sha
from vlib.world import World

LEVEL = 'exploration'
RULE = ('a race case lets one or two writers publish, abort, interrupt and roll back commits (sharing contents with published ones) while two to four readers ask for the head, revisions, file lists, changes and contents, '
        'with the file-system calls of the server delayed at random; every reply is recorded with call and return order and compared afterwards with the revisions that were published: complete, of one revision, '
        'not older than anything returned before the call. A case of the second kind stops one read request at a generated access to the store, publishes one or two revisions, and compares the whole reply with one revision of that time. A forced case takes a complete snapshot, or runs a real client\'s update, at each request of a real commit, abort or roll-back, and publishes commits in the middle of an update. '
        'An evaluation is one read or snapshot; distinct by kind of read, age of the revision, number of commits overlapping')
ASSUMPTIONS = ['no faults (C01, C04 and C28 judge those)']
REQUIRED = ['reads', 'reads_during_commit', 'commits_acknowledged', 'aborted', 'interrupted', 'snapshots_inside', 'updates_inside', 'commit_during_update', 'unpublished_asked', 'stopped_inside']
QUICK_WALL = 20
THOROUGH_WALL = 800

def plan(tier): return 240 if tier == 'quick' else 2400

class Log:
    def __init__(self): self.lock = threading.Lock(); self.n = 0
    def tick(self):
        with self.lock:
            self.n += 1
            return self.n

def writer(world, user, src, seed, log, pool, done, unpublished, steps, errors, name):
    rng = random.Random(seed)
    w = None
    try:
        for step in range(steps):
            if w is None: w = world.wire(user = user, src = src)
            head = w.get_head()
            files = w.list_files(head) if head != 'root' else {}
            puts, deletes = changeset(rng, {p : b'' for p in files}, pool, rng.choice([1, 2, 4]), big = 0.05)
            puts = {p : rng.choice([b'common', b'common', gen.unique(rng, name)]) if rng.random() < 0.5 else ('%s-%d-%s' % (name, step, p)).encode() * rng.choice([1, 1, 2000]) for p in puts}
            puts['/counter/' + name] = ('%s-%d' % (name, step)).encode()
            kind = rng.choice(['commit', 'commit', 'commit', 'abort', 'interrupt'])
            t0 = log.tick()
            if kind == 'commit':
                h = client_commit(w, head, puts, deletes, '%s.%d' % (name, step))
                t1 = log.tick()
                if h['status'] == 'ok': done.append((h['head'], head, user, '%s.%d' % (name, step), puts, deletes, t0, t1))
            elif kind == 'abort':
                unpublished.append((puts, t0))
                h, _ = w.begin(head)
                if h['status'] == 'ok':
                    for p, d in puts.items(): w.push(p, d)
                    if deletes: w.delete(deletes)
                    w.abort()
                    done.append((None, 'aborted'))
            else:
                unpublished.append((puts, t0))
                client_commit(w, head, puts, deletes, 'never', stop_before = len(puts) + bool(deletes))
                w.close(); w = None; done.append((None, 'interrupted'))
    except BaseException as e: errors.append((name, e)) # pylint: disable=broad-except
    finally:
        if w is not None: w.close()

def reader(world, src, seed, log, pool, reads, stop, errors, name):
    rng = random.Random(seed)
    try:
        w = world.wire(user = 'bob', src = src)
        known = []
        while not stop.is_set() or len(reads) < 5:
            k = rng.choice(['head', 'versions', 'files', 'files_head', 'changes', 'changes_head', 'pull', 'pull', 'pull_head', 'find', 'pull_all'])
            t0 = log.tick(); arg = None
            if k in ('files', 'changes', 'pull', 'pull_all') and not known: k = 'head'
            rev = rng.choice(known[-3:]) if known else None
            if k == 'head': out = w.get_head(); known.append(out) if out != 'root' and out not in known else None
            elif k == 'versions': out = [(v['id'], v['commit_by'], v['commit_message']) for v in w.list_versions()]
            elif k in ('files', 'changes'):
                arg = rev; out = (w.list_files if k == 'files' else w.list_changes)(rev)
            elif k in ('files_head', 'changes_head'):
                h, b = w.req('list_' + k.split('_')[0], w.base(show_head = '1', version_id = ''), b'{}')
                out = (h.get('version_id'), json.loads(b)[k.split('_')[0]]) if h['status'] == 'ok' else None
            elif k in ('pull', 'pull_head'):
                arg = (rev if k == 'pull' else None, rng.choice(pool + ['/counter/w0']))
                h, b = w.pull(arg[1], arg[0])
                out = None if b is None else (b, json.loads(h['file_info_json'])['hash'])
            elif k == 'pull_all':
                # everything a list says can be fetched
                files = w.list_files(rev); arg = rev; out = {}
                if files is None: out = None
                else:
                    for p in files:
                        h, b = w.pull(p, rev); out[p] = b
            else:
                arg = (rng.choice(known) if known else 'root', rng.random() < 0.4); h, b = w.find_changed(arg[0], {}, arg[1])
                if h['status'] != 'ok': out = ('refused', h.get('msg'))
                else: out = (b['head'], {i['path'] : (i['status'], i.get('hash')) for l in b['sorted_changes'].values() for i in l})
            t1 = log.tick()
            reads.append((k, arg, out, t0, t1, name))
        w.close()
    except BaseException as e: errors.append((name, e)) # pylint: disable=broad-except

def race(ctx):
    rng = ctx.rng
    world = World(ctx)
    log = Log(); done = []; unpublished = []; reads = []; errors = []; stop = threading.Event()
    world.server.set_delay(rng.choice([200, 1000, 2000]), rng.choice([5, 20, 50]), rng.randrange(1 << 30))
    pool = gen.paths(rng, 6)
    writers = [threading.Thread(target = writer, args = (world, rng.choice(['ann', 'bob']), '127.250.1.%d' % (1 + i), rng.getrandbits(64), log, pool, done, unpublished, rng.choice([4, 8]), errors, 'w%d' % i))
               for i in range(rng.choice([1, 2]))]
    readers = [threading.Thread(target = reader, args = (world, '127.250.2.%d' % (1 + i), rng.getrandbits(64), log, pool, reads, stop, errors, 'r%d' % i)) for i in range(rng.choice([2, 3, 4]))]
    for t in writers + readers: t.start()
    for t in writers: t.join(60)
    stop.set()
    for t in readers: t.join(60)
    if any(t.is_alive() for t in writers + readers): raise Inconclusive('the threads did not finish in time')
    for name, e in errors: raise e
    world.server.set_delay(0, 0, 0)

    # the order of the revisions, from what the writers know
    commits = {d[0] : d for d in done if d[0] is not None}
    for d in done:
        if d[0] is None: ctx.count(d[1])
    order = []; head = 'root'
    children = {}
    for d in commits.values():
        ctx.check(d[1] not in children, 'two revisions were published on the same one', (d, children.get(d[1])))
        children[d[1]] = d
    hist = Hist()
    while head in children:
        d = children[head]
        f, c = expected(hist.files, d[4], d[5])
        hist.add(d[0], d[2], d[3], files = f, changes = c)
        order.append(d); head = d[0]
    ctx.check(len(order) == len(commits), 'the acknowledged commits are no chain')
    ctx.count('commits_acknowledged', len(order))
    pos = {d[0] : i for i, d in enumerate(order)}; pos['root'] = -1
    rev = {r.id : r for r in hist.revs}

    known_at = []       # (return time, position) of everything that showed a head
    for d in order: known_at.append((d[7], pos[d[0]]))
    for k, arg, out, t0, t1, name in reads:
        shown = None
        if k == 'head': shown = out
        elif k == 'versions': shown = out[0][0] if out else 'root'
        elif k in ('files_head', 'changes_head') and out is not None: shown = out[0]
        elif k == 'find' and out[0] != 'refused': shown = out[0]
        if shown is not None:
            ctx.check(shown in pos, 'a reader was shown a head that was never published', (k, shown))
            known_at.append((t1, pos[shown]))
    known_at.sort()
    best = []; m = -1
    for t, p in known_at:
        m = max(m, p); best.append((t, m))
    import bisect
    times = [t for t, _ in best]
    def lowest(t0):
        i = bisect.bisect_left(times, t0)
        return best[i - 1][1] if i else -1
    def highest(t1): # a commit whose request was sent before the reply came may be visible
        return max([pos[d[0]] for d in order if d[6] < t1], default = -1)

    for k, arg, out, t0, t1, name in reads:
        lo, hi = lowest(t0), highest(t1)
        during = sum(1 for d in order if d[6] < t1 and d[7] > t0)
        ctx.count('reads')
        if during: ctx.count('reads_during_commit')
        what = 'read %s of %s during %d commits' % (k, arg, during)
        age = None
        if k in ('head', 'versions', 'files_head', 'changes_head', 'find') and not (out is None or (k == 'find' and out[0] == 'refused')):
            shown = out if k == 'head' else (out[0][0] if out else 'root') if k == 'versions' else out[0]
            ctx.check(lo <= pos[shown] <= hi, what + ': the head went back, or a revision is visible before it was committed', (lo, pos[shown], hi))
            age = hi - pos[shown]
        if k == 'versions':
            want = [(r.id, r.by, r.msg) for r in reversed(hist.revs[:pos[out[0][0]] + 1])] if out else []
            ctx.check(out == want[:len(out)] and (len(out) == len(want) or len(out) >= 50), what + ': not a chain of revisions', out)
        elif k in ('files', 'files_head'):
            id, files = (arg, out) if k == 'files' else (out if out is not None else (None, None))
            if k == 'files_head' and out is None: ctx.check(lo == -1, what + ': refused')
            else:
                ctx.check(files is not None, what + ': a published revision can not be read')
                ctx.check({p : i['hash'] for p, i in files.items()} == {p : sha(d) for p, d in rev[id].files.items()}, what + ': not the files of the revision', (id, sorted(files)))
        elif k in ('changes', 'changes_head'):
            id, changes = (arg, out) if k == 'changes' else (out if out is not None else (None, None))
            if k == 'changes_head' and out is None: ctx.check(lo == -1, what + ': refused')
            else:
                ctx.check(changes is not None, what + ': a published revision can not be read')
                ctx.check({c['path'] : c['status'] for c in changes} == rev[id].changes, what + ': not the changes of the revision', (id, changes))
        elif k == 'pull':
            id, p = arg; want = rev[id].files.get(p)
            ctx.check((out[0] if out else None) == want, what + ': not the content of this revision', (out, want))
            if out: ctx.check(out[1] == sha(out[0]), what + ': content does not match its hash')
        elif k == 'pull_head':
            p = arg[1]
            allowed = [hist.revs[i].files.get(p) if i >= 0 else None for i in range(lo, hi + 1)]
            ctx.check((out[0] if out else None) in allowed, what + ': content of no revision that was the head', out)
            if out: ctx.check(out[1] == sha(out[0]), what + ': content does not match its hash')
        elif k == 'pull_all':
            ctx.check(out is not None and out == rev[arg].files, what + ': what is listed can not be fetched', {p : (out or {}).get(p) for p in rev[arg].files if (out or {}).get(p) != rev[arg].files[p]})
        elif k == 'find':
            ctx.check(out[0] != 'refused', what + ': the changes since a published revision are refused', out)
            if out[0] != 'root':
                state = {} if arg[0] == 'root' else {p : sha(d) for p, d in rev[arg[0]].files.items()}
                for p, (st, h) in out[1].items():
                    if st == 'deleted': state.pop(p, None)
                    else: state[p] = h
                want = {p : sha(d) for p, d in rev[out[0]].files.items()}
                if pos[arg[0]] <= pos[out[0]]: ctx.check(state == want and (not arg[1] or set(want) <= set(out[1])), what + ': the changes do not lead to the head named with them', {p : (state.get(p), want.get(p)) for p in set(state) | set(want) if state.get(p) != want.get(p)})
        ctx.evaluated((k, age, during, out is None))
    r = world.wire(src = '127.250.0.9')
    hist.verify(ctx, r, what = 'after the race')
    r.close()
    ctx.sample({'commits' : len(order), 'reads' : len(reads), 'read' : [repr(x)[:160] for x in reads[:3]]})

def forced(ctx):
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', 'bob')])
    base(ctx, team)
    a, b = team.copies
    for round in range(3):
        for c in team.copies: team.update(c, 'server' if c.plan().conflicts else None)
        kind = rng.choice(['commit', 'fails', 'cut', 'update'])
        if kind == 'update':
            # a publishes in the middle of an update of b
            a.edit(rng, team.pool, 5); a.write('/more', gen.unique(rng)) if gen.compatible('/more', a.local) else None
            if a.status(): team.commit(a, 'to pull')
            plan = b.plan(); k = len(team.hist.revs)
            # the same files change again, or are deleted, while b pulls them
            nth = rng.randrange(max(1, len(plan.pull)))
            fired = []
            def on_event(msg):
                if fired: return
                fired.append(1)
                for p in sorted(plan.pull):
                    if p in a.local and rng.random() < 0.7:
                        if rng.random() < 0.3: a.remove(p)
                        else: a.write(p, gen.unique(rng, 'newer'))
                if not a.status(): a.edit(rng, team.pool, 3)
                st = a.status()
                r = team.world.cli(a.wc, 'commit', '-m', 'meanwhile', server = None)
                if not r.ok: fired.append('commit during an update fails: %r' % r); return
                team.committed(a, 'meanwhile', st) if st else None
            team.world.server.on_event = on_event
            team.world.server.rules([{'action' : rng.choice(['pull_file', 'pull_file', 'find_changed']), 'nth' : nth, 'do' : 'call'}])
            r = team.world.cli(b.wc, 'update')
            team.world.server.rules([])
            if len(fired) > 1: ctx.fail(fired[1])
            ctx.check(r.ok, 'an update fails because of a commit in the meantime: %r' % r, r.extra.get('tb'))
            if fired: ctx.count('commit_during_update')
            meta = b.wc.meta(); ids = [x.id for x in team.hist.revs]
            ctx.check(meta and meta[0] in ids[k - 1:], 'the working copy records a revision that is neither the one before nor the one after', meta and meta[0])
            # one complete revision: that of the record
            n = ids.index(meta[0]) + 1
            saved = team.hist.revs; team.hist.revs = saved[:n]
            b.apply(b.plan(), None); b.check('update during a commit')
            team.hist.revs = saved
            ctx.evaluated(('update', nth, n - k, len(plan.pull)))
            continue
        a.edit(rng, team.pool, 5)
        if not a.status(): a.write('/more', gen.unique(rng)) if gen.compatible('/more', a.local) else a.edit(rng, team.pool, 3)
        status = a.status()
        if not status: continue
        secret = [a.local[p] for p in status if p in a.local and a.local[p] not in team.hist.files.values()]
        problem = []
        def on_event(msg):
            try:
                _, action, path, tag = msg
                if (msg[0], action) == ('call_after', 'commit'): return
                team.hist.verify(ctx, team.reader, revs = team.hist.revs[-2:], what = 'snapshot at %s %s of a commit that is not published' % (msg[0], action))
                ctx.count('snapshots_inside')
                for p, s in status.items():
                    if s == 'new' and p not in team.hist.files:
                        h, data = team.reader.pull(p, None)
                        if data is not None: problem.append('a file of an unpublished commit is served'); return
                        ctx.count('unpublished_asked')
                if rng.random() < 0.4:
                    plan = b.plan()
                    r = team.world.cli(b.wc, 'update', server = None)
                    if not r.ok: problem.append('an update during a commit fails: %r %s' % (r, r.extra.get('tb'))); return
                    b.apply(plan, None); b.check('update inside a commit'); ctx.count('updates_inside')
                ctx.evaluated(('snapshot', msg[0], action, kind, len(status)))
            except BaseException as e: problem.append(e) # pylint: disable=broad-except
        team.world.server.on_event = on_event
        rules = [{'action' : x, 'do' : y} for x in ('push_file', 'delete_files', 'commit', 'begin_commit') for y in [rng.choice(['call', 'call_after'])]]
        if kind == 'fails': rules.insert(0, {'action' : 'push_file', 'nth' : rng.randrange(2), 'do' : rng.choice(['fail', 'fail_after', 'drop', 'drop_after'])})
        if kind == 'cut': rules.insert(0, {'action' : 'commit', 'nth' : 0, 'do' : 'drop'})
        team.world.server.rules(rules)
        r = team.world.cli(a.wc, 'commit', '-m', 'watched')
        team.world.server.rules([])
        for p in problem:
            if isinstance(p, str): ctx.fail(p)
            raise p
        team.world.wait_unlocked()
        if 'Commit ok' in r.out: team.committed(a, 'watched', status); a.check('commit')
        team.hist.verify(ctx, team.reader, revs = team.hist.revs[-2:], what = 'afterwards')
        ctx.evaluated((kind, 'Commit ok' in r.out))

def complete(sc, old):
    """ what a client with old has afterwards: {path: hash} """
    state = dict(old)
    for c in sc['client_pull_files']: state[c['path']] = c['hash']
    for c in sc['to_delete_on_client']: state.pop(c['path'], None)
    return state

def inside(ctx):
    """ one read request is stopped at one of its accesses to the store, in which time commits are published """
    import select
    from vlib.core import PAUSE
    from vlib.life import Life
    rng = ctx.rng
    world = World(ctx, start = False)
    path = world.store['repo']
    world.server.watch = [os.path.join(path, x) for x in ('head', 'index', 'files')]
    world.server.pause_reads = True
    if not world.server.start(): raise Inconclusive('the server did not start')
    life = Life(ctx, world); hist = life.hist
    for _ in range(rng.choice([1, 2, 4])): life.commit()
    r = world.wire(src = '127.250.0.9'); w = world.wire(user = 'bob', src = '127.250.0.8')
    world.server.pause.callback = lambda: publish()
    problem = []
    def publish():
        try:
            for _ in range(rng.choice([1, 1, 2])):
                puts, deletes = changeset(rng, hist.files, life.pool, rng.choice([1, 3, 5]), big = 0)
                if rng.random() < 0.5 and hist.files: # what is there changes
                    puts = {p : d for p, d in puts.items() if p in hist.files}; deletes = []
                    for p in sorted(hist.files): 
                        if p not in puts and rng.random() < 0.5: puts[p] = gen.unique(rng)
                    if not puts: puts = {sorted(hist.files)[0] : gen.unique(rng)}
                h = client_commit(w, hist.head, puts, deletes, 'inside')
                if h['status'] != 'ok': problem.append('a commit is refused while another client reads: %r' % h); return
                f, c = expected(hist.files, puts, deletes)
                hist.add(h['head'], 'bob', 'inside', files = f, changes = c)
        except BaseException as e: problem.append(e) # pylint: disable=broad-except
    for _ in range(20):
        kind = rng.choice(['find', 'find', 'find_all', 'find_all', 'find_all', 'versions', 'files', 'changes', 'files_head', 'changes_head', 'pull', 'pull_head', 'pull_head'])
        k = len(hist.revs); since = rng.randrange(-1, k); rev = rng.choice(hist.revs)
        names = sorted(set(life.pool) | set(hist.files)); p = rng.choice(names); out = []
        def ask():
            try:
                if kind.startswith('find'): out.append(r.find_changed(hist.revs[since].id if since >= 0 else 'root', {}, kind == 'find_all'))
                elif kind == 'versions': out.append(r.list_versions())
                elif kind in ('files', 'changes'): out.append((r.list_files if kind == 'files' else r.list_changes)(rev.id))
                elif kind in ('files_head', 'changes_head'):
                    h, b = r.req('list_' + kind.split('_')[0], r.base(show_head = '1', version_id = ''), b'{}')
                    out.append((h.get('version_id'), json.loads(b)[kind.split('_')[0]]) if h['status'] == 'ok' else h)
                else: out.append(r.pull(p, rev.id if kind == 'pull' else None))
            except BaseException as e: out.append(e) # pylint: disable=broad-except
        n = rng.randrange(rng.choice([3, 8, 20, 40]))
        world.server.arm(n, PAUSE, 0); before = world.server.pause.fired
        fd, cb = world.server.pause.service()
        t = threading.Thread(target = ask); t.start()
        for _ in range(6000):
            if select.select([fd], [], [], 0.01)[0]: cb(fd)
            if not t.is_alive(): break
        if t.is_alive(): raise Inconclusive('a stopped request did not end in time')
        fired = world.server.pause.fired - before
        world.server.disarm()
        for x in problem: 
            if isinstance(x, str): ctx.fail(x)
            raise x
        if isinstance(out[0], BaseException): ctx.fail('a read fails because of a commit in the meantime', (kind, repr(out[0])))
        if fired: ctx.count('stopped_inside')
        what = 'read %s of revision %d or since %d, stopped at its access %d to the store, in which time %d revisions were published: ' % (kind, k, since, n, len(hist.revs) - k)
        ctx.note(what)
        now = hist.revs[k - 1:]; old = hist.revs[since].files if since >= 0 else {}
        reply = out[0]
        if kind.startswith('find'):
            ctx.check(reply[1] is not None, what + 'refused', reply[0])
            one = [x for x in now if x.id == reply[1]['head']]
            ctx.check(one, what + 'not a head of that time', reply[1]['head']); one = one[0]
            ctx.check(reply[1]['commit_by'] == one.by and reply[1]['commit_msg'] in (one.msg, reply[1]['commit_msg'] if one.msg == '' else one.msg), what + 'describes another revision', reply[1]['commit_msg'])
            want = {q : sha(d) for q, d in one.files.items()}
            got = complete(reply[1]['sorted_changes'], {q : sha(d) for q, d in old.items()})
            ctx.check(got == want, what + 'not one revision', {q : (got.get(q), want.get(q)) for q in set(got) | set(want) if got.get(q) != want.get(q)})
            if kind == 'find_all':
                named = {c['path'] for c in reply[1]['sorted_changes']['client_pull_files']}
                ctx.check(named == set(want), what + 'not the files of one revision', sorted(named ^ set(want)))
            named = {c['path'] for l in ('client_pull_files', 'to_delete_on_client') for c in reply[1]['sorted_changes'][l]}
            j = hist.revs.index(one)
            touched = {q for x in hist.revs[since + 1:j + 1] for q in x.changes}
            ctx.check(touched <= named <= (touched | set(want) if kind == 'find_all' else touched), what + 'not the changes between two revisions', sorted(named ^ touched))
        elif kind == 'versions':
            ctx.check(reply is not None and [v['id'] for v in reply] in [[x.id for x in reversed(hist.revs[:i + 1])][:len(reply)] for i in range(k - 1, len(hist.revs))], what + 'not a chain', reply)
            by = {x.id : x for x in hist.revs}
            for v in reply: ctx.check(v['commit_by'] == by[v['id']].by, what + 'describes another revision', v)
        elif kind in ('files', 'files_head', 'changes', 'changes_head'):
            one = [rev]
            if kind.endswith('_head'):
                ctx.check(isinstance(reply, tuple), what + 'refused', reply)
                one = [x for x in now if x.id == reply[0]]; reply = reply[1]
                ctx.check(one, what + 'not a head of that time')
            ctx.check(reply is not None, what + 'refused')
            if kind.startswith('files'): ctx.check({q : i['hash'] for q, i in reply.items()} == {q : sha(d) for q, d in one[0].files.items()}, what + 'not the files of the revision', sorted(reply))
            else: ctx.check({c['path'] : c['status'] for c in reply} == one[0].changes, what + 'not the changes of the revision', reply)
        else:
            h, data = reply
            ctx.check(data in [x.files.get(p) for x in ([rev] if kind == 'pull' else now)], what + 'content of no such revision', (p, h))
            if data is not None: ctx.check(json.loads(h['file_info_json'])['hash'] == sha(data), what + 'the content is not the one described', h)
        ctx.evaluated(('inside', kind, n if fired else 'not stopped', len(hist.revs) - k))
    hist.verify(ctx, r, revs = hist.revs[-4:], what = 'at the end')

def case(ctx):
    if ctx.index % 4 == 0: forced(ctx)
    elif ctx.index % 4 == 1: inside(ctx)
    else: race(ctx)
