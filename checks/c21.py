""" the requests the real server gets, the files and the history after every command, while filters come and go by hand and by command """
import os, re, glob, fnmatch
from vlib import gen, diverge
from vlib.cw import Team
from vlib.wire import sha

LEVEL = 'exploration'
RULE = ('a case gives one working copy generated ignore and pull-ignore filters (written by hand with different line ends, or by the pull-ignore command from any directory, leaving or deleting the files, some of them edited while it asks), '
        'before or after the files they match were synchronised, while another working copy without them goes on changing, deleting and creating matching files; every request the server gets is recorded, and after every command the files, records, history and listings are compared with a reference model. '
        'An evaluation is one command; distinct by command, the numbers of files it affects and the number of filters')
ASSUMPTIONS = ['filters are glob patterns on the whole path, as the documentation says', 'after filters were removed the working copy is updated with full comparison before it is edited']
REQUIRED = ['requests_watched', 'filters_by_hand', 'filters_by_command', 'files_affected', 'deleted_locally', 'left_locally', 'edited_while_asked', 'refused_uncommitted', 'server_changes_kept_away', 'brought_back', 'from_subdirectory', 'ignored_not_sent',
            'foreign_files_safe', 'listings', 'filters_removed']
QUICK_WALL = 22
THOROUGH_WALL = 700

def plan(tier): return 200 if tier == 'quick' else 4000

def escape(p): return re.sub(r'([*?[])', r'[\1]', p)

def pattern(rng, pool, relative_to = None):
    """ a filter that matches something in the pool, mostly """
    p = rng.choice(pool)
    base = p.rsplit('/', 1)[1]; top = '/' + p.split('/')[1]
    k = rng.randrange(9)
    if k == 0: f = escape(p)
    elif k == 1: f = escape(p[:max(2, len(p) // 2)]) + '*'
    elif k == 2: f = '*' + escape(base)
    elif k == 3: f = escape(top) + '/*'
    elif k == 4: f = '*' + escape(base[-3:])
    elif k == 5: f = ''.join('?' if c != '/' and rng.random() < 0.3 else escape(c) for c in p)
    elif k == 6: f = escape(p[:-1]) + '[!%s]' % rng.choice('xyz') if p[-1] not in 'xyz' else escape(p)
    elif k == 7: f = '/*/*'
    else: f = '/[a-m]*'
    # a filter is the whole line
    if relative_to is None and rng.random() < 0.2: f = rng.choice(['*.tmp ', '*.c ', '* ', f + ' ', '# ' + f, '/#*', f.swapcase(), ' ' + f])
    return f

class Run:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = ctx.rng
        pool = gen.paths(ctx.rng, ctx.rng.choice([5, 8, 12]))
        pool += [p for p in ['/t.tmp', '/t.tmp ', '/dir/b.c ', '/#x', '/dir/build/x.o', '/dir/build/y.o', '/dir/b.c', '/br[ack]et/in', '/br[ack]et/x y', '/st*r/f'] if ctx.rng.random() < 0.4 and gen.compatible(p, pool) and p not in pool]
        self.team = Team(ctx, [('w0', 'ann'), ('w1', ctx.rng.choice(['ann', 'bob']))], pool = pool)
        self.o, self.c = self.team.copies
        self.watch()
        self.text = b''      # what is in .bvn_pull_ignore

    def watch(self):
        """ judges the requests every command in the working copy makes """
        ctx = self.ctx; c = self.c; world = self.team.world; real = world.cli
        def cli(wc, *args, **kw):
            if wc is not c.wc: return real(wc, *args, **kw)
            world.server.rules([])
            before = list(c.pull_filters); ign = list(c.filters)
            r = real(wc, *args, **kw)
            for action, path, _ in world.server.seen():
                ctx.count('requests_watched')
                if action == 'push_file':
                    ctx.check(not any(fnmatch.fnmatch(path, x) for x in ign + before), 'a file which is ignored was sent', (path, ign, before))
                if action == 'pull_file': ctx.check(not any(fnmatch.fnmatch(path, x) for x in before), 'a pull ignored file was fetched', (path, before))
            return r
        world.cli = cli

    # ------------------------------------------------ filters
    def put(self, text):
        """ by hand """
        self.text = text
        p = self.c.wc.path + '/.bvn_pull_ignore'
        if not text and self.rng.random() < 0.5:
            if os.path.exists(p): os.remove(p)
        else:
            with open(p, 'wb') as f: f.write(text)
        self.c.pull_filters = [l for l in re.split(r'\r\n|\n', text.decode('utf8')) if l]
        self.ctx.note('pull filters are now', self.c.pull_filters)

    def by_hand(self):
        rng = self.rng
        new = [pattern(rng, self.team.pool) for _ in range(rng.choice([1, 1, 2]))]
        nl = rng.choice(['\n', '\n', '\r\n'])
        text = self.text.decode('utf8')
        if text and not text.endswith('\n'): text += nl
        text += nl.join(new) + rng.choice(['', nl, nl + nl])
        self.put(text.encode('utf8'))
        self.ctx.count('filters_by_hand')

    def by_command(self):
        ctx = self.ctx; rng = self.rng; c = self.c
        args = []; filters = []
        sub = ''
        dirs = sorted({d for p in c.local for d in [p.rsplit('/', 1)[0]] if d} )
        if dirs and rng.random() < 0.5: sub = rng.choice(dirs); ctx.count('from_subdirectory')
        for _ in range(rng.choice([1, 1, 2])):
            inside = [p for p in self.team.pool if p.startswith(sub + '/')]
            if rng.random() < 0.6 and inside: # relative
                p = rng.choice(inside)[len(sub) + 1:]
                f = rng.choice([escape(p), escape(p[:1]) + '*', '?' * len(p)])
                if f[0] in '*-': f = escape(p)
                if f[0] == '-': continue
                full = escape(sub) + '/' + f
            else:
                f = full = pattern(rng, self.team.pool, '')
            args.append(f); filters.append(full)
        if not args: return
        status = c.status()
        affected = sorted(p for p in c.manifest if any(fnmatch.fnmatch(p, f) for f in filters))
        force = bool(status) and rng.random() < 0.6
        choice = rng.choice(['delete', 'nothing'])
        # somebody may edit one of the files while the question is shown
        own = [p for p in affected if not c.ignored(p)] # what is ignored already can not be committed either
        edited = rng.choice(own) if own and not status and rng.random() < 0.5 else None
        hook = None
        if edited is not None:
            data = gen.unique(rng); t = c.wc.times.next(); full = c.wc.full(edited)
            if not os.path.isdir(os.path.dirname(full)): edited = None
            else:
                def hook(n, out):
                    with open(full, 'wb') as f: f.write(data)
                    os.utime(full, (t, t))
        r = self.team.world.cli(c.wc, 'pull-ignore', *(['-f'] if force else []), *args, answers = [choice], sub = sub[1:], asked_hook = hook)
        ctx.note('pull-ignore', args, 'in', repr(sub), choice, r, affected, 'edited meanwhile', edited)
        if edited is not None:
            c.local[edited] = data; c.dirty.add(edited)
            now = open(full, 'rb').read() if os.path.isfile(full) else None
            ctx.check(now == data, 'an edit made while pull-ignore was asking its question is lost', (edited, choice))
            ctx.count('edited_while_asked')
            if not r.ok: # it may want it to be committed first
                ctx.check(r.exc == 'SystemExit', 'pull-ignore fails: %r' % r, r.extra.get('tb'))
                c.check('refused pull-ignore'); self.check_text()
                return
        if status and not force:
            ctx.check(r.exc == 'SystemExit' and 'commit' in r.msg, 'pull-ignore with uncommitted changes is not refused', r)
            c.check('refused pull-ignore'); self.check_text()
            ctx.count('refused_uncommitted')
            return
        ctx.check(r.ok, 'pull-ignore fails: %r' % r, r.extra.get('tb'))
        ctx.check((r.extra['asked'] > 0) == bool(affected), 'the question does not fit: %d affected' % len(affected), r.out[-400:])
        if affected:
            listed = r.out.split('\nThe files listed above')[0].split('\n')
            ctx.check(sorted(x for x in listed if x) == affected, 'the files listed are not those the filters match', (listed, affected))
        text = open(c.wc.path + '/.bvn_pull_ignore', 'rb').read()
        had = list(c.pull_filters)
        lines = [l for l in re.split(r'\r\n|\n', text.decode('utf8')) if l]
        ctx.check(lines[:len(had)] == had and len(lines) == len(had) + len(filters), 'pull-ignore damages the list of filters', (had, lines))
        for p in list(self.team.pool) + sorted(c.local): # they have to mean the same
            ctx.check(any(fnmatch.fnmatch(p, f) for f in lines[len(had):]) == any(fnmatch.fnmatch(p, f) for f in filters), 'the filters written do not match what was asked for', (p, lines[len(had):], filters))
        self.text = text; c.pull_filters = lines
        for p in affected:
            c.manifest.pop(p)
            if choice == 'delete' and p != edited:
                if c.local.pop(p, None) is not None: ctx.count('deleted_locally')
            elif p in c.local: ctx.count('left_locally')
            c.dirty.discard(p)
        ctx.count('files_affected', len(affected)); ctx.count('filters_by_command')
        c.check('pull-ignore')
        ctx.evaluated(('pull-ignore', len(affected), choice, len(lines), bool(sub)))

    def check_text(self):
        p = self.c.wc.path + '/.bvn_pull_ignore'
        t = open(p, 'rb').read() if os.path.exists(p) else b''
        self.ctx.check(t == self.text, 'the pull ignore file changed', (t, self.text))

    def remove_some(self):
        """ filters are taken out by hand; a full update brings back what is missing """
        ctx = self.ctx; rng = self.rng; c = self.c
        if c.status() : self.commit()
        keep = [f for f in c.pull_filters if rng.random() < 0.4]
        self.put('\n'.join(keep).encode('utf8'))
        ctx.count('filters_removed')
        self.update(full = True)
        if c.base == len(self.team.hist.revs) - 1:
            for p in self.team.hist.files:
                if c.pull_ignored(p): continue
                if p not in c.local and c.status().get(p) != 'deleted': ctx.check(False, 'a file the filters do not hide any more is not there after a full update', p)
                ctx.count('brought_back')

    # ------------------------------------------------ commands
    def update(self, full = False):
        ctx = self.ctx; rng = self.rng; c = self.c
        p = c.plan(full)
        hidden = [x for r in self.team.hist.revs[c.base + 1:] for x in r.changes if c.pull_ignored(x)]
        disk = {x : c.local.get(x) for x in hidden}
        if any(not gen.compatible(x, c.local) and x != '/.bvn_ignore' for x in p.pull): ctx.count('left_out'); return False
        choice = rng.choice(['server', 'client']) if p.conflicts else None
        self.team.update(c, choice, full)
        for x in hidden:
            d = open(c.wc.full(x), 'rb').read() if os.path.isfile(c.wc.full(x)) else None
            ctx.check(d == disk[x], 'an update changes a pull ignored file', x); ctx.count('server_changes_kept_away')
        self.check_text()
        ctx.evaluated(('update', full, len(p.pull), len(p.delete), len(p.forget), len(hidden), len(c.pull_filters)))
        return True

    def commit(self):
        ctx = self.ctx; c = self.c
        if c.base != len(self.team.hist.revs) - 1 and not self.update(): return
        head = dict(self.team.hist.files)
        ign = [p for p in c.local if c.ignored(p)]
        status = c.status()
        self.team.commit(c, 'c')
        now = {p : i['hash'] for p, i in self.team.reader.list_files(self.team.reader.get_head()).items()} if self.team.hist.revs else {}
        for p, d in head.items():
            if c.pull_ignored(p):
                ctx.check(now.get(p) == sha(d), 'a commit changes or deletes a file on the server which is pull ignored here', (p, p in now, c.pull_filters))
                ctx.count('foreign_files_safe')
        for p in ign:
            ctx.check(now.get(p) is None or p in head and now[p] == sha(head[p]), 'an ignored file came to the server', p); ctx.count('ignored_not_sent')
        self.check_text()
        ctx.evaluated(('commit', tuple(sorted(status.values())), len(ign)))

    def listings(self):
        ctx = self.ctx; c = self.c
        r = self.team.world.cli(c.wc, 'list-ignored-files')
        ctx.check(r.ok, 'list-ignored-files fails: %r' % r)
        got = {l for l in r.out.split('\n') if l and not l.startswith('/.bvn/')}
        want = {p for p in c.local if c.ignored(p)} | ({'/.bvn_pull_ignore'} if os.path.exists(c.wc.path + '/.bvn_pull_ignore') else set())
        ctx.check(got == want, 'the ignored files are not those listed', got ^ want)
        r = self.team.world.cli(c.wc, 'list-files', '-h', '-i')
        if self.team.hist.revs:
            ctx.check(r.ok, 'list-files fails: %r' % r)
            got = {l for l in r.out.split('\n') if l.startswith('/')}
            want = {p for p in self.team.hist.files if c.pull_ignored(p)}
            ctx.check(got == want, 'the pull ignored files on the server are not those listed', got ^ want)
        ctx.count('listings')

def case(ctx):
    rng = ctx.rng
    run = Run(ctx); team = run.team; c, o = run.c, run.o
    if rng.random() < 0.3: run.by_hand() # before anything was synchronised
    diverge_base(ctx, run)
    for step in range(rng.choice([5, 8]) if ctx.quick else rng.choice([8, 14, 20])):
        k = rng.randrange(14)
        if k < 2: run.by_hand()
        elif k < 4: run.by_command()
        elif k < 6: c.edit(rng, team.pool, rng.choice([1, 2, 3]))
        elif k == 6 and '/.bvn_ignore' not in c.local and '/.bvn_ignore' not in team.hist.files and not c.pull_ignored('/.bvn_ignore'):
            if c.base != len(team.hist.revs) - 1 and not run.update(): continue
            c.write('/.bvn_ignore', '\n'.join(pattern(rng, team.pool) for _ in range(rng.choice([1, 2]))).encode() + rng.choice([b'', b'\n'])); team.frozen.add('/.bvn_ignore')
            ctx.note('ignore filters', c.filters)
        elif k < 9:
            # the other one goes on
            team.update(o, 'server' if o.plan().conflicts else None)
            if '/.bvn_ignore' in o.local: o.edit(rng, team.pool, rng.choice([1, 2, 4])); team.commit(o, 'o')
            else: diverge.server_side(ctx, team, o, 0.5, 1)
        elif k < 11: run.update(full = rng.random() < 0.3)
        elif k < 12: run.commit()
        elif k == 12: run.remove_some()
        else: run.listings()
        c.check_status('after step %d' % step)
    if run.update():
        run.commit(); run.listings()
        run.put(b''); ctx.count('filters_removed')
        run.update(full = True)
        if c.base == len(team.hist.revs) - 1:
            for p in team.hist.files:
                ctx.check(p in c.local or c.status().get(p) == 'deleted', 'without filters, a full update does not bring back everything', p); ctx.count('brought_back')
    ctx.sample({'revisions' : len(team.hist.revs), 'filters' : c.pull_filters[:4] + c.filters[:3]})

def diverge_base(ctx, run):
    team = run.team; rng = ctx.rng
    o = run.o
    pool = list(team.pool); rng.shuffle(pool)
    for p in pool[:rng.randrange(2, len(pool))]: o.write(p, gen.content(rng))
    team.commit(o, 'base')
    run.update()
