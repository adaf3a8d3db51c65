""" offline checker over the call/reply histories of racing clients (mutual exclusion, single chain, each acknowledged commit once), and interleavings of real clients forced at each request """
import threading, random
from vlib import gen
from vlib.core import Inconclusive
from vlib.cw import Team
from vlib.diverge import base
from vlib.hist import Hist, client_commit, expected
from vlib.life import changeset
from vlib.wire import Wire, WireError
from vlib.world import World, Server

LEVEL = 'exploration'
RULE = ('a race case runs 3 to 7 clients (two users, shared and separate addresses, one or two repositories, one or two server processes) as threads over raw connections; each makes full commits, commits on outdated revisions, aborted and '
        'interrupted ones, and requests without or with somebody else\'s lock, while the file-system calls of the server are delayed at random; calls and replies are recorded with a common sequence number and '
        'checked afterwards. A forced case lets one or two real clients run a whole commit while another real client is stopped before or after one chosen request. '
        'An evaluation is one attempt; distinct by kind, outcome, number of overlapping attempts and place of the interleaving')
ASSUMPTIONS = ['one commit at a time per connection']
REQUIRED = ['commits_acknowledged', 'begins_refused_locked', 'begins_refused_outdated', 'overlapping_attempts', 'sneaks_refused', 'interrupted', 'shared_sessions', 'two_processes', 'forced_inside_refused', 'forced_before_won', 'chains_checked']
QUICK_WALL = 20
THOROUGH_WALL = 800

def plan(tier): return 300 if tier == 'quick' else 3000

class Log:
    def __init__(self): self.lock = threading.Lock(); self.n = 0; self.events = []; self.inside = 0
    def tick(self, *what):
        with self.lock:
            self.n += 1
            self.events.append((self.n,) + what)
            return self.n

class Recording(Wire):
    log = None; attempt = None
    def req(self, action, headers, body = b''):
        a = self.attempt; t0 = self.log.tick('call', id(self), action)
        reply = self.last = Wire.req(self, action, headers, body)
        t1 = self.log.tick('return', id(self), action, reply[0]['status'])
        if a is not None:
            a['requests'].append((action, headers.get('mode'), t0, t1, reply[0]['status'], reply[0].get('msg'), headers.get('previous_revision'), reply[1] if action == 'commit' else b''))
        return reply

KINDS = ['commit', 'commit', 'commit', 'commit', 'abort', 'interrupt', 'outdated', 'sneak', 'steal']

def client(ctx, world, repo, user, src, seed, log, pool, attempts, steps, tokens, errors, name, addrs):
    rng = random.Random(seed)
    w = None; addr = rng.choice(addrs)
    def connect():
        x = Recording(addr, src, 60); x.log = log
        shared = [t for t, s, r, u in list(tokens.values()) if (s, r, u) == (src, repo, user)]
        if shared and rng.random() < 0.4: # one session may be used by several connections
            x.session = rng.choice(shared); x.repo = repo; ctx.count('shared_sessions')
            return x
        if not x.login(repo, user, world.keys[user][1]): raise WireError('login refused')
        return x
    try:
        old = []
        for step in range(steps):
            if w is None: w = connect(); tokens[name] = (w.session, src, repo, user)
            kind = rng.choice(KINDS)
            a = {'repo' : repo, 'user' : user, 'kind' : kind, 'requests' : [], 'client' : name, 'id' : None, 'reply' : None, 'end' : None}
            head = w.get_head(); old.append(head)
            if kind == 'sneak':
                # no begin_commit of its own
                w.attempt = a
                h = rng.choice([lambda: w.push('/sneak', b'sneaked'), lambda: w.delete([rng.choice(pool)]), lambda: w.commit('sneaked'), lambda: w.abort()])()
                w.attempt = None
                a['reply'] = h['status']; attempts.append(a)
                continue
            if kind == 'steal':
                # the session of somebody else, who may be committing, on a connection of its own
                victim = rng.choice(sorted(tokens)) if tokens else name
                token, vsrc, vrepo, _ = tokens[victim]
                x = Recording(addr, vsrc, 60); x.log = log; x.session = token; x.repo = vrepo; x.attempt = a
                h = rng.choice([lambda: x.push('/sneak', b'stolen'), lambda: x.delete([rng.choice(pool)]), lambda: x.commit('stolen'), lambda: x.abort()])()
                x.close()
                a['reply'] = h['status']; a['repo'] = vrepo; attempts.append(a)
                continue
            if kind == 'outdated' and len(old) > 1: head = rng.choice(old[:-1])
            files = {p : b'' for p in w.list_files(head)} if head != 'root' else {}
            puts, deletes = changeset(rng, files, pool, rng.choice([1, 2, 3]), big = 0)
            # unique contents: what is read later identifies who wrote it
            puts = {p : ('%s-%d-%s' % (name, step, p)).encode() for p in puts}
            deletes = [d for d in deletes if d in files]
            if not puts and not deletes: puts = {pool[0] : ('%s-%d' % (name, step)).encode()} if gen.compatible(pool[0], files) else {sorted(files)[0] : ('%s-%d' % (name, step)).encode()}
            a.update(base = head, puts = puts, deletes = deletes, msg = '%s.%d' % (name, step))
            w.attempt = a
            if kind == 'abort':
                h, partial = w.begin(head)
                if h['status'] == 'ok':
                    for p, d in puts.items(): w.push(p, d)
                    h = w.abort()
            elif kind == 'interrupt':
                h = client_commit(w, head, puts, deletes, a['msg'], stop_before = rng.randrange(1, 2 + len(puts) + bool(deletes)))
                if not any(r[0] == 'commit' and r[1] == 'commit' for r in a['requests']):
                    a['end'] = log.tick('close', id(w)); w.close(); w = None
            else:
                h = client_commit(w, head, puts, deletes, a['msg'])
            if w is not None: w.attempt = None
            a['reply'] = h['status'] if h else None
            if h and h.get('head'): a['id'] = h['head']
            attempts.append(a)
    except BaseException as e: # pylint: disable=broad-except
        errors.append((name, e))
    finally:
        if w is not None: w.close()

def race(ctx):
    rng = ctx.rng
    repos = ['repo'] if rng.random() < 0.7 else ['repo', 'other']
    world = World(ctx, repos = repos)
    log = Log(); attempts = []; errors = []; tokens = {}; threads = []
    world.server.set_delay(rng.choice([200, 1000, 3000]), rng.choice([5, 20, 50]), rng.randrange(1 << 30))
    addrs = [world.server.addr]
    if rng.random() < 0.35: # two server processes for the same repositories
        ip, port = world.server.addr
        a, b, rest = ip.split('.', 2)
        second = Server(ctx, world.config, addr = ('%s.%d.%s' % (a, int(b) + 110, rest), port), name = 'server2')
        if not second.start(): raise Inconclusive('the second server did not start')
        ctx.cleanups.append(second.kill)
        second.set_delay(rng.choice([200, 1000, 3000]), rng.choice([5, 20, 50]), rng.randrange(1 << 30))
        addrs.append(second.addr); ctx.count('two_processes')
    pool = gen.paths(rng, 6)
    n = rng.choice([3, 4, 5, 7])
    for i in range(n):
        user, src = rng.choice([('ann', '127.250.1.1'), ('bob', '127.250.1.1'), ('ann', '127.250.1.2'), ('bob', '127.250.1.3')])
        t = threading.Thread(target = client, args = (ctx, world, rng.choice(repos), user, src, rng.getrandbits(64), log, pool, attempts, rng.choice([3, 5, 8]), tokens, errors, 'c%d' % i, addrs))
        threads.append(t)
    for t in threads: t.start()
    for t in threads: t.join(100)
    if any(t.is_alive() for t in threads): raise Inconclusive("the racing clients did not finish in time")
    for name, e in errors: raise e
    world.server.set_delay(0, 0, 0)
    for repo in repos: judge(ctx, world, repo, [a for a in attempts if a['repo'] == repo])
    ctx.sample({'clients' : n, 'attempts' : [(a['client'], a['kind'], a['reply'], a['id'][:8] if a['id'] else None) for a in attempts[:12]]})

def judge(ctx, world, repo, attempts):
    for a in attempts: ctx.note(repo, a['client'], a['kind'], a['reply'], (a['id'] or '')[:8], 'base', (a.get('base') or '')[:8], [(r[0], r[4], r[5], r[2], r[3]) for r in a['requests']])
    # --- nobody without the lock gets anything done
    for a in attempts:
        if a['kind'] in ('sneak', 'steal'):
            ctx.check(a['reply'] != 'ok', 'a request of a connection that is in no commit is accepted', a['requests'])
            ctx.count('sneaks_refused')
    real = [a for a in attempts if a['kind'] not in ('sneak', 'steal')]
    # --- holding intervals are disjoint
    holds = []
    for a in real:
        start = None
        for r in a['requests']:
            if r[0] == 'begin_commit':
                if r[4] == 'ok': start = r[3]
                elif r[5] and 'lock' in r[5]: ctx.count('begins_refused_locked')
                else: ctx.count('begins_refused_outdated')
            elif start is not None and r[0] == 'commit':
                holds.append((start, r[2], a)); start = None
            elif start is not None: ctx.check(r[4] == 'ok', 'a request inside a commit is refused', r)
        if start is not None: holds.append((start, a['end'] or max(r[3] for r in a['requests']), a))
    holds.sort(key = lambda h: h[:2])
    for (s1, e1, a1), (s2, e2, a2) in zip(holds, holds[1:]):
        if s2 < e1:
            ctx.fail('two clients were inside a commit at the same time', [(s1, e1, a1['client'], a1['requests']), (s2, e2, a2['client'], a2['requests'])])
    # --- one chain, each acknowledged commit once
    r = world.wire(repo, 'ann', '127.250.0.9')
    versions = r.list_versions() or []
    chain = [v['id'] for v in reversed(versions)]
    acked = {}
    for a in real:
        if a['id'] is not None:
            ctx.check(a['id'] not in acked, 'two acknowledged commits got the same revision', a['id'])
            acked[a['id']] = a; ctx.count('commits_acknowledged')
        if a['kind'] == 'interrupt' and a['id'] is None: ctx.count('interrupted')
    missing = set(acked) - set(chain)
    if len(chain) < 50:
        ctx.check(not missing, 'acknowledged commits are not part of the history', sorted(missing))
        ctx.check(set(chain) == set(acked), 'the history has revisions nobody was told about', sorted(set(chain) - set(acked)))
    ctx.check(len(set(chain)) == len(chain), 'a revision is in the history twice')
    # --- replayed in order of the chain
    hist = Hist(); position = {'root' : -1}
    for i, id in enumerate(chain):
        a = acked[id]
        ctx.check(a['base'] == hist.head, 'a commit that was based on an outdated revision was published', (id, a['base'], hist.head))
        f, c = expected(hist.files, a['puts'], a['deletes'])
        hist.add(id, a['user'], a['msg'], files = f, changes = c)
        position[id] = i
    hist.verify(ctx, r, what = 'after the race')
    ctx.count('chains_checked')
    # --- in order of real time: whoever is let in is based on the head of that time
    done = sorted((max(q[3] for q in a['requests']), id) for id, a in acked.items())
    for a in real:
        overlap = sum(1 for s, e, b in holds if b is not a and a['requests'] and s < a['requests'][-1][3] and e > a['requests'][0][2])
        if overlap: ctx.count('overlapping_attempts')
        for q in a['requests']:
            if q[0] == 'begin_commit' and q[4] == 'ok':
                newest = max([position[id] for t, id in done if t < q[2]], default = -1)
                ctx.check(position.get(a['base'], -2) >= newest, 'a commit was started on a revision that was outdated', (a['base'], newest))
        ctx.evaluated((a['kind'], a['reply'], a['id'] is not None, overlap, len(a['requests'])))
    # --- and it goes on
    w = world.wire(repo, 'bob', '127.250.0.8')
    world.wait_unlocked(repo)
    h = client_commit(w, hist.head, {'/last' : b'last'} if gen.compatible('/last', hist.files) else {}, [], 'last')
    ctx.check(h['status'] == 'ok', 'no commit is possible after the race', h)
    w.close(); r.close()

def forced(ctx):
    """ whole commits of other real clients at one chosen place of a commit of a real client """
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', 'bob'), ('w2', 'ann')])
    base(ctx, team)
    for round in range(rng.choice([2, 3])):
        for c in team.copies: team.update(c, 'server' if c.plan().conflicts else None)
        a = team.copies[rng.randrange(3)]
        others = [c for c in team.copies if c is not a]
        for c in team.copies:
            while not c.status():
                c.edit(rng, team.pool, 3)
                if not c.status(): c.write('/extra%d' % rng.randrange(10**6), gen.unique(rng))
        pushes = sum(1 for s in a.status().values() if s != 'deleted'); deletes = 'deleted' in a.status().values()
        places = [('begin_commit', 0, 'call'), ('begin_commit', 0, 'call_after'), ('commit', 0, 'call'), ('commit', 0, 'call_after')]
        places += [('push_file', i, k) for i in range(pushes) for k in ('call', 'call_after')]
        if deletes: places += [('delete_files', 0, 'call'), ('delete_files', 0, 'call_after')]
        action, nth, do = rng.choice(places)
        inside = not ((action, do) == ('begin_commit', 'call') or (action, do) == ('commit', 'call_after'))
        happened = []
        status = a.status()
        def on_event(msg):
            if happened: return None
            happened.append(msg)
            for b in others:
                st = b.status()
                if (action, do) == ('begin_commit', 'call') and b is others[0]:
                    r = team.world.cli(b.wc, 'commit', '-m', 'in between', server = None)
                    if not r.ok: raise AssertionError('commit in between fails: %r' % r)
                    team.committed(b, 'in between', st); b.check('in between')
                    ctx.count('forced_before_won')
                elif inside:
                    r = team.world.cli(b.wc, 'commit', '-m', 'intruder', server = None)
                    if 'Commit ok' in r.out: raise AssertionError('a second client commits while another one does')
                    if r.kind != 'done': raise AssertionError('a competing client does not end: %r' % r)
                    b.check('refused'); ctx.count('forced_inside_refused')
                else:
                    # published, but the reply was not sent yet
                    r = team.world.cli(b.wc, 'commit', '-m', 'late', server = None)
                    if 'Commit ok' in r.out: raise AssertionError('an outdated client commits')
                    b.check('refused'); ctx.count('forced_after_refused')
            return None
        problem = []
        def guarded(msg):
            try: return on_event(msg)
            except BaseException as e: problem.append(e); return None # pylint: disable=broad-except
        team.world.server.on_event = guarded
        team.world.server.rules([{'action' : action, 'nth' : nth, 'do' : do}])
        r = team.world.cli(a.wc, 'commit', '-m', 'outer')
        ctx.note('outer commit', a.name, (action, nth, do), r, status)
        team.world.server.rules([])
        if problem:
            if isinstance(problem[0], AssertionError): ctx.fail('%s (%s %d, %s)' % (problem[0], action, nth, do))
            raise problem[0]
        if happened and (action, do) == ('begin_commit', 'call'):
            ctx.check('Commit ok' not in r.out, 'a commit on a revision that was outdated meanwhile is accepted')
            a.check('refused')
            team.update(a, 'client' if a.plan().conflicts else None)
            team.commit(a, 'again')
        else:
            ctx.check(r.ok and 'Commit ok' in r.out, 'a commit fails because others try to commit at the same time: %r' % r, r.extra.get('tb'))
            team.committed(a, 'outer', status); a.check('commit')
        team.hist.verify(ctx, team.reader, what = 'after the interleaving')
        ctx.evaluated(('forced', action, nth, do, len(status)))
        for c in others:
            team.update(c, 'client' if c.plan().conflicts else None)
            team.commit(c, 'own')

def case(ctx):
    if ctx.index % 3 == 0: forced(ctx)
    else: race(ctx)
