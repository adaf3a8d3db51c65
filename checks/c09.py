""" every kind of damage applied to every kind of stored object, and every healthy state, against what the real verify command prints """
import os, json, shutil
from vlib import gen
from vlib.core import KILL, HALF_KILL, Pause
from vlib.hist import client_commit, expected
from vlib.life import Life, changeset
from vlib.world import World, run_repo, store_objects
from vlib.wire import WireError, sha
from checks.c10 import walk

LEVEL = 'exploration'
RULE = ('a case builds one to three repositories with random lives (pending, aborted, crashed commits, gc, first commits that never finished), runs the real verify command at rest, in the middle of a commit, and stopped at one of its own file accesses '
        'while commits, aborts and roll-backs go on; then damages chosen objects of the history (missing, emptied, truncated, one bit, appended, exchanged, replaced by a valid object of another kind or an older version) in one repository and runs it again: '
        'exactly the damaged one may not be called free of issues. An evaluation is one run of verify; distinct by kind of damage, kind of object, state of the repository and position in the configuration')
ASSUMPTIONS = ['a head that names an older complete revision can not be told from the truth']
REQUIRED = ['healthy_runs', 'damaged_runs', 'healthy_inside_commit', 'healthy_with_pending', 'concurrent_runs', 'damaged_commit', 'damaged_tree', 'damaged_file', 'damaged_head', 'stamps_kept', 'several_repositories', 'path_override', 'unused_repository', 'large_objects', 'large_damaged', 'long_histories', 'damaged_held', 'shared_damaged', 'published_not_cleaned']
NEEDS_REPO_MANAGER = True
QUICK_WALL = 20
THOROUGH_WALL = 700

def plan(tier): return 130 if tier == 'quick' else 1500

def verify(ctx, config, **kw):
    r = run_repo(config, 'verify', **kw)
    ctx.check(r.ok, 'the verify command ends with an error: %r' % r, r.extra.get('tb'))
    out = {}
    lines = r.out.split('\n')
    for i, l in enumerate(lines):
        if l.startswith('Results for: '):
            rest = [x for x in lines[i + 1:] if x]
            out[l[len('Results for: '):]] = bool(rest) and rest[0] == 'No issues'
    ctx.check(set(out) == set(config['repositories']), 'verify does not report on every repository', out)
    return out

def healthy(ctx, config, what, **kw):
    out = verify(ctx, config, **kw)
    bad = [n for n, v in out.items() if not v]
    ctx.check(not bad, 'verify reports issues of a healthy repository (%s)' % what, bad)
    ctx.count('healthy_runs')
    ctx.evaluated(('healthy', what, len(out)))

def kind_of(path, h):
    with open(os.path.join(path, 'index', h[:2], h[2:])) as f: return json.load(f)['type']

def damage(ctx, path, kind, h, how):
    """ damages one object; returns what undoes it, None if it would not be a damage """
    rng = ctx.rng
    full = os.path.join(path, 'head') if kind == 'head' else os.path.join(path, 'files' if kind == 'file' else 'index', h[:2], h[2:])
    with open(full, 'rb') as f: data = f.read()
    new = None
    if how == 'missing': pass
    elif how == 'emptied': new = b''
    elif how == 'truncated': new = data[:rng.randrange(len(data))] if data else None
    elif how == 'bit': 
        if data: i = rng.randrange(len(data)); new = data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]
    elif how == 'end': new = data[:-1] + bytes([data[-1] ^ 1])
    elif how == 'appended': new = data + rng.choice([b'\0', b'x', b' ', b'\n'])
    elif how == 'exchanged':
        objs = store_objects(path)['files' if kind == 'file' else 'index']
        other = rng.choice(sorted(objs))
        with open(os.path.join(path, 'files' if kind == 'file' else 'index', other), 'rb') as f: new = f.read()
    elif how == 'other kind':
        objs = store_objects(path)['index' if kind == 'file' else 'files']
        if objs:
            with open(os.path.join(path, 'index' if kind == 'file' else 'files', rng.choice(sorted(objs))), 'rb') as f: new = f.read()
    elif how == 'same meaning': # json that reads the same but is not what was stored
        if kind == 'file': return None
        try: new = json.dumps(json.loads(data), indent = 1).encode()
        except ValueError: return None
    elif how == 'zeroed': new = b'\0' * len(data)
    elif how == 'directory gone':
        if kind == 'head': return None
        d = os.path.dirname(full)
        shutil.copytree(d, ctx.dir + '/saved')
        shutil.rmtree(d)
        return lambda: shutil.move(ctx.dir + '/saved', d)
    if how != 'missing' and (new is None or new == data): return None
    if kind == 'head' and (new or b'').strip() == data.strip(): return None
    os.chmod(full, 0o600)
    st = os.stat(full); quiet = rng.random() < 0.5 # as when the disk is at fault, which does not change the time stamps
    if quiet and new is not None: ctx.count('stamps_kept')
    if new is None: os.remove(full)
    else:
        with open(full, 'wb') as f: f.write(new)
        if quiet: os.utime(full, ns = (st.st_atime_ns, st.st_mtime_ns))
    def undo():
        with open(full, 'wb') as f: f.write(data)
        os.utime(full, ns = (st.st_atime_ns, st.st_mtime_ns))
    return undo

HOWS = ['missing', 'emptied', 'truncated', 'bit', 'bit', 'appended', 'exchanged', 'other kind', 'same meaning', 'zeroed', 'directory gone']

def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    override = rng.random() < 0.3
    def extra(config):
        if override:
            for i, r in enumerate(config['repositories'].values()): r['transient_db_path_override'] = os.path.join(ctx.dir, 'transient%d.db' % i)
    repos = ['repo', 'second', 'third one'][:n]
    world = World(ctx, repos = repos, watch_server = True, extra_config = extra)
    config = {'repositories' : world.config['repositories']}
    if override: ctx.count('path_override')
    if n > 1: ctx.count('several_repositories')
    pool = gen.paths(rng, 8)
    lives = [Life(ctx, world, repo = r, pool = pool) for r in repos]
    unused = n > 1 and rng.random() < 0.4
    if unused: ctx.count('unused_repository')
    if rng.random() < 0.5: healthy(ctx, config, 'never used')
    large = None
    for i, life in enumerate(lives):
        if unused and i == n - 1: continue
        if rng.random() < 0.3:
            life.event(['interrupt', 'crash', 'abort']); healthy(ctx, config, 'first commit did not finish')
        if i == 0 and rng.random() < 0.25:
            # contents of several megabytes
            data = gen.unique(rng) + bytes([rng.randrange(256)]) * rng.choice([1 << 20, (4 << 20) + 1, (5 << 20) + 12345, 9 << 20])
            if gen.compatible('/large', list(life.hist.files)):
                w = world.wire(life.repo, 'ann'); h = client_commit(w, life.hist.head, {'/large' : data}, [], 'large'); w.close()
                ctx.check(h['status'] == 'ok', 'a commit is refused', h)
                f, c = expected(life.hist.files, {'/large' : data}, [])
                life.hist.add(h['head'], 'ann', 'large', files = f, changes = c); life.pending = None
                large = (life, sha(data)); ctx.count('large_objects')
        if i == 0 and ctx.index % 40 == 9: life.long(); ctx.count('long_histories')
        for _ in range(rng.choice([1, 2, 4])): life.event(['commit', 'commit', 'commit', 'interrupt', 'abort', 'resume', 'crash', 'gc'])
    shared = []
    if n > 1 and rng.random() < 0.6:
        # the repositories have something in common
        data = gen.unique(rng)
        for life in lives[:n - 1] if unused else lives:
            if not gen.compatible('/shared/file', list(life.hist.files)): continue
            w = world.wire(life.repo, 'ann'); h = client_commit(w, life.hist.head, {'/shared/file' : data}, [], 'shared'); w.close()
            ctx.check(h['status'] == 'ok', 'a commit is refused', h)
            f, c = expected(life.hist.files, {'/shared/file' : data}, [])
            life.hist.add(h['head'], 'ann', 'shared', files = f, changes = c); life.pending = None
            store = os.path.join(world.store[life.repo], 'index')
            load = lambda x: json.load(open(os.path.join(store, x[:2], x[2:])))
            shared += [(life, 'file', sha(data)), (life, 'tree', load(load(h['head'])['tree_root'])['dirs']['shared'])]
    pending = any(l.pending for l in lives)
    if pending: ctx.count('healthy_with_pending')
    healthy(ctx, config, 'pending' if pending else 'at rest')

    # in the middle of a commit
    life = rng.choice(lives[:n - 1] if unused else lives)
    who, src = life.random_who()
    w = world.wire(life.repo, who, src)
    h, partial = w.begin(life.hist.head)
    ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
    for p in partial or []: w.delete([p['path']])
    for i in range(3):
        if rng.random() < 0.6: healthy(ctx, config, 'in the middle of a commit'); ctx.count('healthy_inside_commit')
        w.push('/verify%d' % i, gen.content(rng))
    w.close(); world.wait_unlocked(life.repo)

    # things happen while it runs
    for _ in range(2):
        life = rng.choice(lives[:n - 1] if unused else lives)
        problem = []
        todo = rng.choice(['commit', 'abort', 'supersede', 'first'])
        def on_pause():
            try:
                if todo == 'abort':
                    life.abort()
                elif todo == 'supersede':
                    w = world.wire(life.repo, 'bob', '127.250.0.88')
                    h, _ = w.begin(life.hist.head); w.abort(); w.close(); life.pending = None
                else: life.commit()
            except BaseException as e: problem.append(e) # pylint: disable=broad-except
        if todo in ('supersede', 'abort'):
            # there is something to be cancelled
            w = world.wire(life.repo, 'ann', '127.250.0.87')
            w.begin(life.hist.head); w.push('/cancelled', gen.unique(rng)); w.push('/cancelled2/x', gen.unique(rng)); w.close()
            world.wait_unlocked(life.repo)
        elif todo == 'first' and life.hist.revs:
            continue
        pause = Pause(on_pause, rng.randrange(rng.choice([25, 80])), reads = True, only = ('read',))
        healthy(ctx, config, 'while: ' + todo, pause = pause, watch = [world.store[life.repo]])
        pause.close()
        if pause.fired: ctx.count('concurrent_runs')
        for p in problem: raise p
    life.pending = None

    # a commit which did not finish uses what the history already has, or the history is younger than what it says about it
    held = []
    for life in [l for l in lives if l.hist.revs]:
        todo = rng.choice(['', 'unfinished', 'unfinished', 'uncleaned'])
        if not todo: continue
        if todo == 'uncleaned':
            life.pending = None; life.event(['uncleaned'])
            index, files = walk(world.store[life.repo], life.hist.head)
            held.append((life, 'head', None)); held.append((life, 'commit', life.hist.head))
            held += [(life, 'file', sha(d)) for p, d in life.hist.files.items() if p.startswith('/uncleaned')]
            tree = json.load(open(os.path.join(world.store[life.repo], 'index', life.hist.head[:2], life.hist.head[2:])))['tree_root']
            held.append((life, 'tree', tree))
            continue
        w = world.wire(life.repo, 'ann', '127.250.0.89')
        h, partial = w.begin(life.hist.head)
        ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
        if partial: w.abort(); w.begin(life.hist.head)
        some = rng.choice(life.hist.revs).files
        for i, p in enumerate(rng.sample(sorted(some), min(len(some), 3))):
            if p in life.hist.files: w.push(p, some[p]) # touched
            else: w.push('/held%d' % i, some[p])
            held.append((life, 'file', sha(some[p])))
        w.close(); world.wait_unlocked(life.repo)
        ctx.count('held_objects', len(held))
    if held: healthy(ctx, config, 'an unfinished commit with stored contents')

    # damage
    world.server.kill()
    candidates = [l for l in lives if l.hist.revs]
    if not candidates: return
    for _ in range(6 if ctx.quick else 20):
        life = rng.choice(candidates); path = world.store[life.repo]
        index, files = walk(path, life.hist.head)
        kind = rng.choice(['commit', 'tree', 'tree', 'file', 'file', 'head'])
        if kind == 'head': h = None
        elif kind == 'file':
            if not files: continue
            h = rng.choice(sorted(files))
        else:
            # of any age
            pool_ = [x for x in sorted(index) if kind_of(path, x) == kind]
            h = rng.choice(pool_)
        how = rng.choice(HOWS)
        if large and rng.random() < 0.4: # anywhere in it
            life, h = large; path = world.store[life.repo]; kind = 'file'; how = rng.choice(['bit', 'end', 'truncated', 'appended'])
            if life not in candidates: continue
            ctx.count('large_damaged')
        if shared and rng.random() < 0.4:
            life, kind, h = rng.choice(shared); path = world.store[life.repo]
            if how in ('other kind', 'same meaning') and kind == 'file': how = 'bit'
            ctx.count('shared_damaged')
        elif held and rng.random() < 0.5:
            life, kind, h = rng.choice(held); path = world.store[life.repo]
            ctx.count('damaged_held')
        if kind == 'head': how = rng.choice(['missing', 'emptied', 'truncated', 'bit', 'zeroed'])
        # the only revision, not cleaned up after and without head, looks as if it had not been published yet
        if kind == 'head' and len(life.hist.revs) == 1 and any(x[0] is life and x[1] == 'head' for x in held): continue
        undo = damage(ctx, path, kind, h, how)
        if undo is None: continue
        ctx.note('damage', life.repo, kind, h, how)
        if True:
            out = verify(ctx, config)
            ctx.check(not out[life.repo], 'verify finds no issues although a %s object of the history is %s' % (kind, how), (life.repo, h))
            others = [x for x in out if x != life.repo and not out[x]]
            ctx.check(not others, 'verify reports issues of a healthy repository next to a damaged one', others)
        ctx.count('damaged_runs'); ctx.count('damaged_' + kind)
        ctx.evaluated((kind, how, repos.index(life.repo), n))
        undo()
    healthy(ctx, config, 'repaired')
    ctx.sample({'repositories' : n, 'revisions' : [len(l.hist.revs) for l in lives]})
