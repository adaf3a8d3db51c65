""" generated working copies are turned into the earlier format, as that client would have left them, and real commands upgrade them, undisturbed, killed, or with failing requests; files, records, status and everything done afterwards are compared with a model """
import os, json, sqlite3, shutil
from vlib import gen
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM
from vlib.cw import Team
from vlib.hist import simple_commit, expected
from vlib.wire import sha

LEVEL = 'exploration'
RULE = ('a case makes a history and a working copy with generated files, filters and local changes (before or after it was converted), writes its records and private files in the earlier format and names, as it would be after a complete update, after one that stopped while downloading, or before the first one, lets it be outdated or not, and then '
        'runs a generated first command, possibly killed at file-system operations, with disk errors or with failing requests first. An evaluation is one upgraded working copy; distinct by its state, first command, and disturbance')
ASSUMPTIONS = ['the earlier client stored paths, creation and modification times in manifest.json, as its tests and the import code show', 'no local untracked file stands where an update has to create a directory, or the other way round', 'filters were not removed since the last update']
REQUIRED = ['disk_errors', 'upgraded', 'old_names', 'new_names', 'outdated', 'up_to_date', 'never_updated', 'stopped', 'stopped_new', 'stopped_changed', 'filters', 'pull_filters', 'tracked_filters', 'local_changes', 'killed', 'request_failed', 'first_update', 'first_commit', 'first_list-versions', 'first_revert', 'first_pull-ignore', 'converged', 'status_compared']
QUICK_WALL = 22
THOROUGH_WALL = 700

def plan(tier): return 500 if tier == 'quick' else 8000

class Run:
    def __init__(self, ctx):
        rng = ctx.rng; self.ctx = ctx; self.rng = rng
        self.team = Team(ctx, copies = (('b', 'bob'),), pool = gen.paths(rng, rng.choice([4, 7, 10])))
        self.b = self.team.copies[0]
        self.team.frozen |= {'/.bvn_ignore', '/.shttpfs_ignore'}
        self.w = self.team.world.wire(None, 'ann', '127.250.0.7')
        self.pool = self.team.pool

    def server(self, density, deletes = True, tracked = None):
        """ somebody commits """
        rng = self.rng; hist = self.team.hist
        puts = {}; dels = []
        for p in self.pool:
            if rng.random() > density: continue
            if p in hist.files and rng.random() < 0.35 and deletes: dels.append(p)
            elif rng.random() < 0.7: puts[p] = gen.content(rng)
        if tracked is not None: puts['/.shttpfs_ignore'] = tracked
        if not puts and not dels: puts[self.pool[0]] = gen.unique(rng)
        ops = [('push', p, d) for p, d in puts.items()] + ([('delete', dels)] if dels else [])
        head = simple_commit(self.w, hist, 'ann', ops, 'by ann')
        files, changes = expected(hist.files, puts, dels)
        hist.add(head, 'ann', 'by ann', files = files, changes = changes)

    def convert(self, stopped, old_names):
        """ writes the records in the earlier format """
        ctx = self.ctx; rng = self.rng; b = self.b; hist = self.team.hist
        db = b.wc.path + '/.bvn/manifest.db'
        files = {}
        if os.path.exists(db):
            con = sqlite3.connect(db)
            for p, mod, created in con.execute('select path, last_mod, created from files'): files[p] = {'path' : p, 'created' : float(created), 'last_mod' : float(mod)}
            con.close()
        rev = hist.revs[b.base].id if b.base >= 0 else 'root'
        have = hist.revs[b.base].files if b.base >= 0 else {}
        if stopped: # an update that downloaded some of the files
            p = b.plan(); status = b.status()
            todo = sorted(p.pull)
            for f in rng.sample(todo, rng.randrange(len(todo) + 1)):
                if f not in b.local and (not gen.compatible(f, b.local) or os.path.isdir(b.wc.full(f))): continue
                b.wc.write(f, p.pull[f])
                t = os.path.getmtime(b.wc.full(f))
                files[f] = {'path' : f, 'created' : t, 'last_mod' : t}
                b.local[f] = p.pull[f]; b.dirty.discard(f)
                ctx.count('stopped')
                # files which are not in the recorded revision are not known any more, those which are remain
                ctx.count('stopped_changed' if f in have else 'stopped_new')
        for n in os.listdir(b.wc.path + '/.bvn'):
            if n == 'client_configuration.json': continue
            full = b.wc.path + '/.bvn/' + n
            if os.path.isdir(full): shutil.rmtree(full)
            else: os.remove(full)
        m = {'have_revision' : rev, 'format_version' : 2, 'files' : files} if rng.random() < 0.7 else {'files' : files, 'have_revision' : rev}
        with open(b.wc.path + '/.bvn/manifest.json', 'w') as f: json.dump(m, f, indent = rng.choice([None, 4]), ensure_ascii = rng.random() < 0.7)
        if rng.random() < 0.3: open(b.wc.path + '/.bvn/lock_file', 'w').close()
        if rng.random() < 0.3: open(b.wc.path + '/.bvn/journal.json', 'w').close()
        if old_names:
            os.rename(b.wc.path + '/.bvn', b.wc.path + '/.shttpfs')
            for n in ('_ignore', '_pull_ignore'):
                if os.path.exists(b.wc.path + '/.bvn' + n):
                    os.rename(b.wc.path + '/.bvn' + n, b.wc.path + '/.shttpfs' + n)
        # the model
        b.manifest = {f : sha(have[f]) for f in files if f in have and not b.pull_ignored(f)}
        ctx.note('converted', rev, sorted(files), 'old names', old_names)

def case(ctx):
    rng = ctx.rng
    run = Run(ctx); team = run.team; b = run.b; hist = team.hist
    old_names = rng.random() < 0.6
    state = rng.choice(['plain', 'plain', 'outdated', 'outdated', 'stopped', 'stopped', 'never', 'never stopped'])
    never = state.startswith('never'); stopped = 'stopped' in state
    # -------------------------------- filters and history
    if rng.random() < 0.4:
        b.pull_filters = rng.sample([rng.choice(run.pool), rng.choice(run.pool)[:2] + '*', '*.raw', '/nothing', '*x*'], rng.choice([1, 2]))
        with open(b.wc.path + '/.bvn_pull_ignore', 'w') as f: f.write('\n'.join(b.pull_filters) + rng.choice(['', '\n']))
        ctx.count('pull_filters')
    filters = None
    if rng.random() < 0.5: filters = '\n'.join(rng.sample(['*.tmp', '/ignored/*', rng.choice(run.pool), '*~', '/' + '*' * 3 + 'x'], rng.choice([1, 2, 3]))).encode() + rng.choice([b'', b'\n'])
    tracked = filters is not None and old_names and rng.random() < 0.4
    run.server(rng.choice([0.6, 1]), tracked = filters if tracked else None)
    if rng.random() < 0.5: run.server(0.5)
    if not never: team.update(b)
    if filters is not None and not tracked:
        b.write('/.bvn_ignore', filters); ctx.count('filters')
        if not never and rng.random() < 0.5: team.commit(b, 'filters') if not old_names else None
    if tracked: ctx.count('tracked_filters')
    early = rng.random() < 0.5
    def local():
        n = rng.choice([0, 0, 1, 3, 6])
        b.edit(rng, run.pool + ['/ignored/file', '/x.tmp'], n)
        if n: ctx.count('local_changes')
    if early: local()
    if state in ('outdated', 'stopped'):
        for _ in range(rng.choice([1, 2])): run.server(rng.choice([0.3, 0.8]), deletes = not stopped or rng.random() < 0.5)
        ctx.count('outdated')
    elif never: ctx.count('never_updated')
    else: ctx.count('up_to_date')
    p = b.plan()
    for x in list(p.pull) + list(p.conflicts):
        if x not in b.local and not gen.compatible(x, set(b.local)): ctx.count('left_out'); return
    run.convert(stopped, old_names)
    ctx.count('old_names' if old_names else 'new_names')
    if not early: local()
    # after the first command, the filters have their new names
    def renamed():
        if old_names and '/.shttpfs_ignore' in b.local and '/.bvn_ignore' not in b.local:
            b.local['/.bvn_ignore'] = b.local.pop('/.shttpfs_ignore')
            b.dirty.add('/.bvn_ignore'); b.dirty.discard('/.shttpfs_ignore')
    if old_names:
        if not tracked and '/.bvn_ignore' in b.local: b.dirty.add('/.bvn_ignore')
    renamed()
    p = b.plan() # with these filters and what was downloaded
    for x in list(p.pull) + list(p.conflicts):
        if x not in b.local and not gen.compatible(x, set(b.local)) and x != '/.shttpfs_ignore': ctx.count('left_out'); return
    old = b.status()
    # -------------------------------- disturbed upgrades
    first = rng.choice(['update', 'update', 'update', 'commit', 'list-versions', 'list-files', 'list-changes', 'revert', 'pull-ignore'])
    args = {'list-versions' : ['list-versions'], 'list-files' : ['list-files', '-h'], 'list-changes' : ['list-changes', '-h'], 'revert' : ['revert', '-h', '/no such file'], 'pull-ignore' : ['pull-ignore'], 'update' : ['update'], 'commit' : ['commit']}[first]
    disturbed = 0
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
        disk = False
        if rng.random() < 0.25: # the disk fails
            r = team.world.cli(b.wc, 'list-versions', watch = [b.wc.path], arm = (rng.randrange(40), rng.choice([ERR, ERR, ERR_FROM]), rng.choice([5, 28, 13])))
            ctx.note('disk error', r); disk = r.extra['fired']
            if disk: disturbed += 1; ctx.count('disk_errors')
        elif rng.random() < 0.6:
            r = team.world.cli(b.wc, 'list-versions', watch = [b.wc.path], arm = (rng.randrange(40), rng.choice([KILL, HALF_KILL]), 0))
            ctx.note('killed', r)
            if r.kind == 'killed': disturbed += 1; ctx.count('killed')
        else:
            team.world.server.rules([{'n' : rng.randrange(4), 'do' : rng.choice(['fail', 'drop', 'drop_after'])}])
            r = team.world.cli(b.wc, 'list-versions')
            hit = any(x[2] for x in team.world.server.seen())
            team.world.server.rules([])
            ctx.note('request failed', r)
            if hit and not r.ok: disturbed += 1; ctx.count('request_failed')
        ctx.check(r.kind in ('done', 'killed'), 'an upgrade hangs: %r' % r)
        ctx.check(r.kind == 'killed' or disk or r.exc in (None, 'SystemExit', 'OSError', 'Exception', 'ConnectionResetError', 'IOError', 'BrokenPipeError', 'JSONDecodeError'), 'an upgrade ends in %r' % r, r.extra.get('tb'))
        tree = b.wc.tree()
        for f in tree: ctx.check(tree[f] in (b.local.get(f), b.local.get('/.bvn_ignore') if f == '/.shttpfs_ignore' else b.local.get(f)) or f.startswith('/.shttpfs'), 'a disturbed upgrade changed a file', f)
        for f in b.local: ctx.check(f in tree or f == '/.bvn_ignore', 'a disturbed upgrade lost a file', f)
    # -------------------------------- the first command that works
    ctx.count('first_' + first)
    what = 'upgrade by ' + first
    if first not in ('update', 'commit'):
        r = team.world.cli(b.wc, *args)
        ctx.note(first, r)
        ctx.check(r.ok or first in ('revert', 'pull-ignore') and r.exc == 'SystemExit', what + ': %r' % r, r.extra.get('tb'))
        b.check(what)
        b.check_status(what)
    elif first == 'commit':
        if not team.commit(b, 'first'): b.check(what)
    choice = rng.choice(['server', 'client'])
    team.update(b, choice)
    b.check_status('update after the upgrade')
    ctx.count('upgraded')
    ctx.check(not os.path.exists(b.wc.path + '/.bvn/manifest.json'), 'the records in the earlier format are still in use')
    # -------------------------------- it goes on as any other
    b.edit(rng, run.pool, rng.choice([0, 1, 3]))
    team.commit(b, 'later')
    if rng.random() < 0.5: run.server(0.5)
    for x in list(b.plan().pull) + list(b.plan().conflicts):
        if x not in b.local and not gen.compatible(x, set(b.local)) and x != '/.shttpfs_ignore': ctx.count('left_out'); return
    team.update(b, choice)
    b.check_status('later')
    head = hist.files
    for p, h in b.manifest.items(): 
        if p not in b.status(): ctx.check(sha(b.local[p]) == sha(head[p]), 'in the end, a file differs from the server and is not reported', p)
    ctx.count('converged')
    ctx.evaluated((state, first, old_names, disturbed, tracked, bool(b.pull_filters), tuple(sorted(set(old.values())))))
    ctx.sample({'state' : state, 'first' : first, 'old_names' : old_names, 'local' : old})
