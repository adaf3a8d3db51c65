""" the files, records, reported changes and the history after generated reverts, compared with the requested revision """
import errno, os, re, fnmatch
from vlib import gen, diverge
from vlib.cw import Team
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM
from vlib.wire import sha

LEVEL = 'exploration'
RULE = ('a case builds a generated history (files turning into directories and back), lets a working copy be edited, and reverts paths, wildcards or everything, to the checked-out, the head or an old revision, from generated directories; some of the reverts are cut off by a failing request or by the death of the client or an error at one of its file operations; '
        'afterwards every file of the working copy, the records and the reported changes are compared with a model, and what follows (commit, update) as well. An evaluation is one revert; distinct by revision used, kind of selection, and the numbers of files restored, removed and kept')
ASSUMPTIONS = ['edits change the modification time', 'no local untracked file stands where a file of the requested revision has to be, as a directory, or the other way round']
REQUIRED = ['reverts', 'all', 'paths', 'wildcards', 'to_base', 'to_head', 'to_old', 'from_subdirectory', 'restored', 'restored_deleted', 'removed', 'untouched', 'declined', 'nothing_selected', 'turned', 'then_committed', 'unknown_revision', 'directory_removed', 'interrupted', 'killed', 'disk_errors', 'filtered']
QUICK_WALL = 22
THOROUGH_WALL = 700

def plan(tier): return 220 if tier == 'quick' else 4000

def escape(p): return re.sub(r'([*?[])', r'[\1]', p)

class Run:
    def __init__(self, ctx):
        rng = ctx.rng
        self.ctx = ctx; self.rng = rng
        pool = gen.paths(rng, rng.choice([4, 6, 9]))
        for p in ['/br[ack]et/in', '/sub/x y', '/sub/deep/z', '/sub/z']:
            if rng.random() < 0.3 and gen.compatible(p, pool) and p not in pool: pool.append(p)
        self.team = Team(ctx, [('w0', 'ann'), ('w1', rng.choice(['ann', 'bob']))], pool = pool)
        self.o, self.c = self.team.copies
        self.over = False

    def history(self):
        """ the other copy makes revisions, this one takes part in some of them """
        rng = self.rng; team = self.team
        diverge.base(self.ctx, team)
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.random()
            if k < 0.3: # a file becomes a directory or the other way round
                o = self.o
                team.update(o, 'server' if o.plan().conflicts else None)
                old = [p for p in o.local if p.startswith('/turn')]
                for p in old: o.remove(p, True)
                for p in rng.choice([['/turn'], ['/turn/a'], ['/turn/a/b', '/turn/c']]): o.write(p, gen.content(rng))
                team.commit(o, 'turn'); self.ctx.count('turned')
            elif k < 0.7: diverge.server_side(self.ctx, team, self.uptodate(self.o), 0.5, 1)
            else:
                c = self.uptodate(self.c)
                diverge.server_side(self.ctx, team, c, 0.4, 1)
        if rng.random() < 0.8: self.uptodate(self.c)

    def uptodate(self, c):
        self.team.update(c, 'server' if c.plan().conflicts else None)
        return c

    def edits(self):
        """ local edits, including whole directories that disappear """
        rng = self.rng; c = self.c
        c.edit(rng, self.team.pool, rng.choice([0, 1, 3, 5]))
        if rng.random() < 0.3:
            dirs = sorted({p.rsplit('/', 1)[0] for p in c.local if p.count('/') > 1})
            if dirs:
                d = rng.choice(dirs)
                for p in [p for p in c.local if p.startswith(d + '/')]: c.remove(p, True)
                self.ctx.count('directory_removed')
        if rng.random() < 0.3 and not any(p.startswith('/other') for p in c.local): c.write('/other %d' % rng.randrange(5), gen.content(rng)) # stays what it is

    def selection(self, files, sub):
        """ -> (arguments, function that tells whether a path is meant) """
        rng = self.rng
        args = []; pats = []
        names = sorted(set(files) | set(self.team.pool) | set(self.c.local))
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = rng.choice(names)
            inside = [x for x in names if x.startswith(sub + '/')]
            k = rng.randrange(6)
            if k == 0 and inside: 
                rel = escape(rng.choice(inside)[len(sub) + 1:])
                if rel[0] in '-*': continue
                args.append(rel); pats.append(escape(sub) + '/' + rel); self.ctx.count('paths')
            elif k == 1 and inside:
                rel = rng.choice(inside)[len(sub) + 1:]; rel = escape(rel[:1]) + '*'
                if rel[0] == '-': continue
                args.append(rel); pats.append(escape(sub) + '/' + rel); self.ctx.count('wildcards')
            elif k == 2: args.append(escape(p)); pats.append(escape(p)); self.ctx.count('paths')
            elif k == 3: a = escape(p.rsplit('/', 1)[0]) + '/*'; args.append(a); pats.append(a); self.ctx.count('wildcards')
            elif k == 4: a = '*' + escape(p[-2:]); args.append(a); pats.append(a); self.ctx.count('wildcards')
            elif k == 5 and rng.random() < 0.3: args.append('*'); pats.append('*'); self.ctx.count('wildcards')
        return args, lambda p: any(fnmatch.fnmatch(p, x) for x in pats)

    def revert(self):
        ctx = self.ctx; rng = self.rng; c = self.c; hist = self.team.hist
        which = rng.choice(['base', 'base', 'base=', 'head', 'head=', 'old', 'unknown' if rng.random() < 0.2 else 'old'])
        if c.base < 0: return
        n = {'base' : c.base, 'base=' : c.base, 'head' : len(hist.revs) - 1, 'head=' : len(hist.revs) - 1, 'unknown' : 0}.get(which)
        if n is None: n = rng.randrange(len(hist.revs))
        files = hist.revs[n].files
        args = []
        if which == 'head': args += ['-h']
        elif which == 'unknown': args += ['--v', rng.choice(['f' * 64, hist.revs[0].id[:-1] + ('0' if hist.revs[0].id[-1] != '0' else '1')])]
        elif which != 'base': args += ['--v', hist.revs[n].id]
        sub = ''
        dirs = sorted({d for p in c.local for d in [p.rsplit('/', 1)[0]] if d})
        if dirs and rng.random() < 0.4: sub = rng.choice(dirs); ctx.count('from_subdirectory')
        everything = rng.random() < 0.3
        if everything: args.append('--all'); meant = lambda p: True; rng.random() < 0.3 and args.reverse() if which == 'head' else None; ctx.count('all')
        else:
            sel, meant = self.selection(files, sub)
            if not sel: return
            args += sel
        restore = {p for p in files if meant(p) and not c.pull_ignored(p)}
        delete = {p for p in c.manifest if p not in files and not c.pull_ignored(p)} if everything else set()
        if c.pull_filters and any(c.pull_ignored(p) for p in files): ctx.count('filtered')
        # an untracked file or directory in the way is left out
        keep = {p for p in c.local if p not in restore and p not in delete}
        for p in restore:
            if any(k.startswith(p + '/') or p.startswith(k + '/') for k in keep): ctx.count('left_out'); return
        for p in delete | restore: # the model of the working copy has no place for a removed file whose directory is now a file
            pass
        same = n == c.base
        before = dict(c.local); status = c.status()
        answer = 'no' if rng.random() < 0.12 else 'yes'
        answers = [answer] if rng.random() < 0.8 else ['perhaps', '', answer]
        if rng.random() < 0.25 and restore and answer == 'yes' and which != 'unknown':
            # it fails half way, what was asked for is either as it was or as requested
            server = self.team.world.server
            died = rng.random() < 0.5
            disk = died and rng.random() < 0.5
            if disk: arm = (rng.randrange(rng.choice([6, 15, 40])), rng.choice([ERR, ERR, ERR_FROM]), rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]))
            elif died: arm = (rng.randrange(rng.choice([6, 15, 40])), rng.choice([KILL, HALF_KILL, HALF_KILL]), 0)
            else: server.rules([{'action' : 'pull_file', 'nth' : rng.randrange(len(restore)), 'do' : rng.choice(['fail', 'drop', 'drop_after', 'cut']), 'bytes' : rng.choice([0, 10, 200, 300, 400, 500])}])
            r = self.team.world.cli(c.wc, 'revert', *args, answers = [answer], sub = sub[1:], **({'arm' : arm, 'watch' : [c.wc.path]} if died else {}))
            hit = r.extra['fired'] if disk else r.kind == 'killed' if died else any(x[2] for x in server.seen()); server.rules([])
            ctx.note('interrupted revert', args, r, arm if died else '')
            if died and hit:
                # what was begun is rolled back or finished by the next command
                ctx.count('disk_errors' if disk else 'killed')
                if disk: ctx.check(r.kind == 'done', 'a revert during which the disk fails hangs: %r' % r)
                s = self.team.world.cli(c.wc, 'status')
                ctx.check(s.ok, 'status after a revert that was killed fails: %r' % s, s.extra.get('tb'))
            ctx.check(r.kind == 'done' or died and hit, 'an interrupted revert hangs: %r' % r)
            tree = c.wc.tree()
            for p in set(tree) | set(before):
                if p in restore: ctx.check(tree.get(p) in (before.get(p), files[p]), 'an interrupted revert leaves a damaged file', (p, len(tree.get(p) or b'')))
                elif p in delete: ctx.check(tree.get(p) in (before.get(p), None), 'an interrupted revert changes a file it has to remove', p)
                else: ctx.check(tree.get(p) == before.get(p), 'an interrupted revert changes another file', p)
            if hit and r.ok: ctx.check(all(tree.get(p) == files[p] for p in restore) and not any(p in tree for p in delete), 'a revert during which a request failed ends well without having done it')
            if hit: ctx.count('interrupted')
            if sub and not os.path.isdir(c.wc.path + sub):
                if os.path.exists(c.wc.path + sub): self.over = True; return
                os.makedirs(c.wc.path + sub)
        r = self.team.world.cli(c.wc, 'revert', *args, answers = answers, sub = sub[1:])
        ctx.note('revert', which, args, 'in', repr(sub), answers, r, 'restore', sorted(restore), 'delete', sorted(delete))
        if which == 'unknown':
            ctx.check(r.exc == 'SystemExit', 'a revert to an unknown revision ends with %r' % r, r.extra.get('tb'))
            c.check('revert to an unknown revision'); ctx.count('unknown_revision'); return
        if not restore and not delete:
            ctx.check(r.exc == 'SystemExit' and not r.extra['asked'], 'a revert of nothing ends with %r' % r)
            c.check('revert of nothing'); ctx.count('nothing_selected'); return
        if answer == 'no':
            ctx.check(r.exc == 'SystemExit', 'a declined revert ends with %r' % r, r.extra.get('tb'))
            c.check('declined revert'); c.check_status('declined revert'); ctx.count('declined'); return
        ctx.check(r.ok, 'a revert fails: %r' % r, r.extra.get('tb') or r.out[-300:])
        for p in delete:
            c.local.pop(p, None); c.dirty.discard(p)
            if same: c.manifest.pop(p)
            ctx.count('removed')
        for p in restore:
            if p not in before: ctx.count('restored_deleted')
            c.local[p] = files[p]
            if same: c.manifest[p] = sha(files[p]); c.dirty.discard(p)
            else: c.dirty.add(p)
            ctx.count('restored')
        ctx.count('untouched', len(keep))
        c.check('revert to ' + which)
        c.check_status('revert to ' + which)
        got = c.status()
        if same:
            for p in restore: ctx.check(p not in got, 'model', p)
        self.leftovers()
        ctx.count('reverts'); ctx.count('to_' + ('base' if same else 'head' if n == len(hist.revs) - 1 else 'old'))
        ctx.evaluated((which, everything, len(restore), len(delete), len(keep), len(status), bool(sub)))

    def leftovers(self):
        """ nothing appears besides the files """
        for d, _, names in os.walk(self.c.wc.path):
            for x in names:
                full = os.path.join(d, x)
                if '/.bvn/' in full: continue
                self.ctx.check(os.path.isfile(full) and not os.path.islink(full), 'something that is no file', full)

def case(ctx):
    rng = ctx.rng
    run = Run(ctx); team = run.team; c = run.c
    run.history()
    if rng.random() < 0.15: # some files are pull ignored, they do not belong to the working copy
        c.pull_filters = [escape(x)[:-1] + '?' for x in rng.sample(team.pool, 2) if x[-1] not in '*?[]']
        with open(c.wc.path + '/.bvn_pull_ignore', 'w') as f: f.write('\n'.join(c.pull_filters))
    for step in range(4 if ctx.quick else 10):
        run.edits()
        run.revert()
        if run.over: break
        k = rng.random()
        if k < 0.2:
            run.revert()
            if run.over: break
        elif k < 0.5:
            if c.base != len(team.hist.revs) - 1:
                p = c.plan()
                if any(not gen.compatible(x, c.local) for x in list(p.pull) + [x for x in p.conflicts if x in team.hist.files]): ctx.count('left_out'); continue
                choice = rng.choice(['server', 'client']) if p.conflicts else None
                team.update(c, choice)
            team.commit(c, 'after'); ctx.count('then_committed')
            if rng.random() < 0.3 and not run.o.status():
                team.update(run.o); run.o.edit(rng, team.pool, 2, kinds = ('write', 'modify')); team.commit(run.o, 'o')
    ctx.sample({'revisions' : len(team.hist.revs), 'pool' : team.pool[:5]})
