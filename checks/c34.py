""" repositories moved while the server is down, in every state, and compared with the history that was made at their former place """
import os, shutil, json, time
from vlib import gen
from vlib.cw import Team
from vlib.core import KILL, HALF_KILL
from vlib.hist import client_commit, expected
from vlib.life import changeset
from vlib.wire import WireError, sha
from vlib.world import run_repo

LEVEL = 'exploration'
RULE = ('histories are made with interrupted (also while a file is sent), aborted and pending commits, killed servers and working copies; then the server is stopped, the directory of the repository is copied (with or without times, as it is or into a directory with another name, with or without the database of sessions and pending commits if that is configured to lie elsewhere) and the original is removed, once or several times; '
        'a new server, whose repository may have another name, has to serve exactly the history at the new place, let pending commits be resumed or dropped, take new commits, verify and gc; the working copies go on after their configuration names the new address. Beside the configured places nothing may have been written. An evaluation is one move; distinct by state, way of moving and what follows')
ASSUMPTIONS = ['nothing runs while the directory is copied']
REQUIRED = ['moves', 'revisions_compared', 'pending', 'resumed', 'without_database', 'renamed', 'verified', 'collected', 'copies_went_on', 'commits_after', 'killed_before', 'torn']
QUICK_WALL = 16
THOROUGH_WALL = 400
NEEDS_REPO_MANAGER = True

def plan(tier): return 160 if tier == 'quick' else 3000

def census(d):
    """ {kind: {name}} of the stored objects """
    out = {}
    for kind in ('files', 'index'):
        out[kind] = {a + f for a in (os.listdir(os.path.join(d, kind)) if os.path.isdir(os.path.join(d, kind)) else []) for f in os.listdir(os.path.join(d, kind, a))}
    return out

def case(ctx):
    rng = ctx.rng
    where = os.path.join(ctx.dir, 'places'); os.makedirs(where)
    elsewhere = os.path.join(ctx.dir, 'elsewhere'); os.makedirs(elsewhere)
    apart = rng.random() < 0.35
    def extra(config):
        if apart:
            for r in config['repositories'].values(): r['transient_db_path_override'] = os.path.join(elsewhere, 'sessions.db')
    team = Team(ctx, [('w0', 'ann'), ('w1', 'bob')], extra_config = extra)
    world = team.world; c0, c1 = team.copies; name = 'repo'
    beside = sorted(os.listdir(os.path.dirname(world.store[name])))
    for move in range(rng.choice([1, 1, 2, 3])):
        # ------------------------ history
        for _ in range(rng.choice([1, 2, 4])):
            c = rng.choice(team.copies)
            c.edit(rng, team.pool, rng.choice([1, 2, 4]))
            team.update(c, rng.choice(['server', 'client']) if c.plan().conflicts else None)
            if rng.random() < 0.7: team.commit(c, 'before %d' % move)
        # ------------------------ something unfinished
        state = rng.choice(['settled', 'pending', 'pending', 'killed', 'aborted', 'torn', 'torn'])
        puts = deletes = None; user = rng.choice(['ann', 'bob'])
        if state != 'settled':
            puts, deletes = changeset(rng, team.hist.files, team.pool, rng.choice([1, 3, 5]))
            if not puts: puts['/pending'] = gen.unique(rng)
            if not all(gen.compatible(p, set(team.hist.files) | set(puts)) for p in puts): puts = {'/pending' : gen.unique(rng)}; deletes = []
            w = world.wire(name, user, src = '127.250.0.7')
            steps = 1 + bool(deletes) + len(puts)
            if state == 'killed':
                world.server.ask('only', 0, '')
                world.server.arm(rng.randrange(1, 40), rng.choice([KILL, HALF_KILL]))
                try: r = client_commit(w, team.hist.head, puts, deletes, 'interrupted')
                except (WireError, OSError): r = None
                ctx.count('killed_before')
                if world.server.alive(): world.server.disarm()
                else: world.server.start()
                w.close(); world.wait_unlocked(name)
                team.drop_reader()
                w = world.wire(name, user, src = '127.250.0.8'); head = w.get_head(); w.close()
                if head != team.hist.head:
                    f, ch = expected(team.hist.files, puts, deletes); team.hist.add(head, user, 'interrupted', files = f, changes = ch); puts = None
                elif r is not None: ctx.check(r['status'] != 'ok', 'an acknowledged commit is not there', r)
            else:
                client_commit(w, team.hist.head, puts, deletes, 'pending', stop_before = rng.randrange(1, steps + 1))
                if state == 'torn': # the connection ends while a file is sent
                    data = rng.randbytes(rng.choice([10, 5000, 300000]))
                    w.send_raw(w.preamble('push_file', w.base(path = '/torn'), len(data)) + data[:rng.randrange(len(data))]); ctx.count('torn')
                    if rng.random() < 0.5: time.sleep(0.02)
                    during = os.listdir(os.path.dirname(world.store[name]))
                    ctx.check(sorted(during) == beside, 'something is put next to the repository during an upload', (during, beside))
                    puts = None
                if state == 'aborted': w.abort(); puts = None
                else: ctx.count('pending')
                w.close(); world.wait_unlocked(name)
        # ------------------------ the move
        world.server.kill(); team.drop_reader()
        old = world.store[name]; new = os.path.join(where, rng.choice(['place %d', 'plätze-%d', 'a/b/c%d', '.hidden%d', '%d%%20?#']) % move)
        ctx.check(sorted(os.listdir(os.path.dirname(old))) == beside, 'something was put next to the repository', (os.listdir(os.path.dirname(old)), beside))
        if apart: ctx.check(all(x.startswith('sessions.db') for x in os.listdir(elsewhere)), 'something was put next to the database', os.listdir(elsewhere))
        os.makedirs(os.path.dirname(new), exist_ok = True)
        times = rng.random() < 0.5
        before = census(old)
        shutil.copytree(old, new, symlinks = True, copy_function = shutil.copy2 if times else shutil.copyfile)
        shutil.rmtree(old)
        if move == 0 or os.path.dirname(old) != where:
            try: os.rmdir(os.path.dirname(old))
            except OSError: pass
        beside = sorted(os.listdir(os.path.dirname(new)))
        database = True
        if apart and rng.random() < 0.6:
            shutil.rmtree(elsewhere); os.makedirs(elsewhere); database = False; ctx.count('without_database')
        former = name
        if rng.random() < 0.35: name = 'moved%d' % move; ctx.count('renamed')
        config = {'repositories' : {name : dict(world.config['repositories'][former], path = new)}, 'users' : {u : dict(v, uses_repositories = [name]) for u, v in world.config['users'].items()}}
        if 'transient_db_path_override' in config['repositories'][name] and not apart: config['repositories'][name]['transient_db_path_override'] = os.path.join(new, 'server_transient_elsewhere.db')
        world.config = config; world.store = {name : new}
        world.server.config = config
        world.server.start()
        world.server.rules([])
        for c in team.copies:
            f = c.wc.path + '/.bvn/client_configuration.json'
            cfg = json.load(open(f)); cfg['repository'] = name; cfg['server_domain'] = 'http://%s:%d' % world.server.addr
            with open(f, 'w') as h: json.dump(cfg, h)
        ctx.count('moves'); ctx.note('moved to', new, 'state', state, 'database', database, 'name', name)
        what = 'after moving the repository (%s%s)' % (state, '' if database else ', without its database')
        # ------------------------ the same there
        ctx.check(census(new) == before, what + ': objects are missing or were added', None)
        w = world.wire(name, 'ann', src = '127.250.0.9')
        ctx.count('revisions_compared', len(team.hist.revs))
        team.hist.verify(ctx, w, what = what); w.close()
        todo = rng.sample(['verify', 'gc', 'commit', 'copies', 'pending'], rng.choice([2, 3, 5]))
        if puts and 'pending' in todo and todo[0] != 'pending' and rng.random() < 0.7: todo.remove('pending'); todo.insert(0, 'pending')
        for k in todo:
            if k == 'verify':
                r = run_repo(config, 'verify'); ctx.check(r.ok, what + ': verify fails: %r' % r, r.out[-500:]); ctx.count('verified')
            elif k == 'gc':
                world.server.kill(); team.drop_reader()
                r = run_repo(config, 'gc'); ctx.check(r.ok, what + ': gc fails: %r' % r, r.extra.get('tb')); ctx.count('collected')
                world.server.start()
                w = world.wire(name, 'ann', src = '127.250.0.9'); team.hist.verify(ctx, w, what = what + ' and gc'); w.close()
            elif k == 'pending' and puts is not None:
                w = world.wire(name, user, src = '127.250.0.7')
                h, partial = w.begin(team.hist.head)
                ctx.check(h['status'] == 'ok', what + ': a pending commit can not be resumed', h)
                w.close(); world.wait_unlocked(name)
                for p in partial: ctx.check(p['path'] not in puts or p['status'] == 'deleted' or p.get('hash') in (None, sha(puts[p['path']])), what + ': another pending commit comes up', p)
                if partial: ctx.count('resumed')
                w = world.wire(name, user, src = '127.250.0.7')
                r = client_commit(w, team.hist.head, puts, deletes, 'pending')
                ctx.check(r['status'] == 'ok', what + ': a pending commit can not be completed', r)
                f, ch = expected(team.hist.files, puts, deletes)
                if r['head'] != team.hist.head: team.hist.add(r['head'], user, 'pending', files = f, changes = ch)
                else: ctx.check(not ch, what + ': a pending commit publishes nothing')
                team.hist.verify(ctx, w, revs = team.hist.revs[-1:], what = what + ' and resuming'); w.close(); puts = None
            elif k == 'commit':
                p = '/after %d' % rng.randrange(9)
                w = world.wire(name, 'bob', src = '127.250.0.5'); d = gen.unique(rng)
                r = client_commit(w, team.hist.head, {p : d}, [], 'after'); ctx.check(r['status'] == 'ok', what + ': a commit is refused', r)
                f, ch = expected(team.hist.files, {p : d}, []); team.hist.add(r['head'], 'bob', 'after', files = f, changes = ch)
                team.hist.verify(ctx, w, revs = team.hist.revs[-2:], what = what + ' and a commit'); w.close(); ctx.count('commits_after'); puts = None
            elif k == 'copies':
                c = rng.choice(team.copies)
                c.edit(rng, team.pool, 2)
                team.update(c, rng.choice(['server', 'client']) if c.plan().conflicts else None)
                if team.commit(c, 'went on'): puts = None
                ctx.count('copies_went_on')
        team.drop_reader()
        ctx.check(not os.path.exists(old), what + ': the former place is used', os.listdir(old) if os.path.isdir(old) else None)
        ctx.evaluated((state, database, apart, times, name != former, tuple(todo)))
    ctx.sample({'revisions' : len(team.hist.revs)})
