""" the requests a server receives from commits, updates and reverts, whole and interrupted ones, are compared with what had to be transferred """
import os
from vlib import gen
from vlib.cw import Team
from vlib.diverge import base, server_side, client_side
from vlib.s3 import S3
from vlib.world import run_repo

LEVEL = 'exploration'
RULE = ('working copies and a server diverge by generated edits and commits; the server records each request of the following commits, updates (also full ones, and with conflicts decided for either side), reverts and listings, some of which lose the connection at one of the files and are run again, after files were edited or not. '
        'A commit has to send each new or changed file once and no other, an update has to fetch each file at most once and only files which changed on the server (or are wanted from there), a command run again must not transfer again what already arrived and did not change, and where there is nothing to do nothing is transferred; backups upload no object which is there. '
        'An evaluation is one command; distinct by command, counts of what it had to transfer and of what was there, and where it was interrupted')
ASSUMPTIONS = ['a file counts as changed if its time of modification is another one, as documented']
REQUIRED = ['files_sent', 'files_fetched', 'resumed_commits', 'not_sent_again', 'sent_again_as_edited', 'resumed_updates', 'not_fetched_again', 'nothing_to_do', 'conflicts_client', 'conflicts_server', 'full_updates', 'reverts', 'backups']
QUICK_WALL = 15
THOROUGH_WALL = 400
NEEDS_REPO_MANAGER = True

def plan(tier): return 160 if tier == 'quick' else 3000

def case(ctx):
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', 'bob')], pool = gen.paths(rng, rng.choice([4, 8, 14])))
    world = team.world; server = world.server; c0, c = team.copies
    last = []
    real = world.cli
    def cli(wc, *args, **kw):
        start = len(server.seen()); r = real(wc, *args, **kw)
        last[:] = [(x[0], x[1]) for x in (server.seen() or [])[start:]]
        return r
    world.cli = cli
    def paths(action): return [p for a, p in last if a == action]
    def once(what, got, may, must = ()):
        ctx.check(len(got) == len(set(got)), what + ': the same file is transferred more than once', sorted(p for p in got if got.count(p) > 1))
        ctx.check(set(got) <= set(may), what + ': a file is transferred without need', sorted(set(got) - set(may)))
        ctx.check(set(must) <= set(got), what + ': a file is not transferred', sorted(set(must) - set(got)))
    def judge_commit(what, status, there = ()):
        send = {p for p, s in status.items() if s != 'deleted'} - set(there)
        once(what, paths('push_file'), send, send)
        ctx.check(not paths('pull_file'), what + ': files are fetched', paths('pull_file'))
        ctx.check(sum(a == 'delete_files' for a, _ in last) == ('deleted' in status.values()), what + ': deletions are sent when there are none, or more than once', last)
        ctx.count('files_sent', len(send))
    def judge_update(what, p, side, there = ()):
        may = set(p.pull) | ({x for x, (_, s) in p.conflicts.items() if s == 'Changed'} if side == 'server' else set())
        got = paths('pull_file')
        once(what, got, may - set(there)); ctx.check(not paths('push_file'), what + ': files are sent', paths('push_file'))
        ctx.count('files_fetched', len(got))
        if p.conflicts: ctx.count('conflicts_' + side)
        return got

    base(ctx, team)
    s3 = S3(os.path.join(ctx.dir, 's3'))
    for step in range(3 if ctx.quick else 10):
        client_side(ctx, team, c, rng.choice([0.2, 0.6]))
        if rng.random() < 0.8:
            if c0.base != len(team.hist.revs) - 1: team.update(c0, 'server' if c0.plan().conflicts else None)
            client_side(ctx, team, c0, 0.6); status = c0.status()
            commit(ctx, team, c0, status, last, judge_commit)
        # -------------------------------- an update
        full = rng.random() < 0.2
        p = c.plan(full); side = rng.choice(['server', 'client'])
        ctx.note('update', 'pull', sorted(p.pull), 'delete', p.delete, 'conflicts', p.conflicts, side, full)
        if full: ctx.count('full_updates')
        want = len(p.pull) + (len(p.conflicts) if side == 'server' else 0)
        if want and rng.random() < 0.45: # interrupted at a file
            k = rng.randrange(want)
            server.rules([{'action' : 'pull_file', 'nth' : k, 'do' : rng.choice(['drop', 'cut', 'fail']), 'bytes' : rng.choice([10, 40])}])
            r = world.cli(c.wc, 'update', *(['-f'] if full else []), answers = [side] * 2)
            hit = [i for i, x in enumerate(server.seen()) if x[2]]; server.rules([])
            first = paths('pull_file')
            ctx.check(not hit or not r.ok, 'harness: an update whose connection was lost ends well', r)
            if r.ok: judge_update('update', p, side); c.apply(p, side); c.check('update')
            else:
                once('interrupted update', first, set(p.pull) | set(p.conflicts))
                failed = first[k] if len(first) > k else None
                there = set(first) - {failed} # those before arrived, and those after a refused one
                r = world.cli(c.wc, 'update', *(['-f'] if full else []), answers = [side] * 2)
                ctx.check(r.ok, 'an update which is run again fails: %r' % r, r.extra.get('tb'))
                judge_update('update which is run again', p, side, there); ctx.count('resumed_updates'); ctx.count('not_fetched_again', len(there))
                c.apply(p, side); c.check('update which is run again')
            ctx.evaluated(('update', 'again', len(p.pull), len(p.conflicts), k, side, full))
        else:
            # what follows the command itself are requests of the harness
            r = world.cli(c.wc, 'update', *(['-f'] if full else []), answers = [side] * 2)
            ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb'))
            judge_update('update', p, side); c.apply(p, side); c.check('update')
            ctx.evaluated(('update', len(p.pull), len(p.delete), len(p.conflicts), side, full))
        r = world.cli(c.wc, 'update'); ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb'))
        ctx.check(not paths('pull_file') and not paths('push_file'), 'an update where there is nothing to do transfers files', last); ctx.count('nothing_to_do')
        # -------------------------------- a commit
        if rng.random() < 0.8: commit(ctx, team, c, c.status(), last, judge_commit)
        # -------------------------------- listings, a revert
        r = world.cli(c.wc, *rng.choice([['status'], ['list-versions'], ['list-files', '-h'], ['list-changes', '-h']]))
        ctx.check(not paths('pull_file') and not paths('push_file'), 'a listing transfers files', last)
        if rng.random() < 0.4 and c.base >= 0 and team.hist.revs[c.base].files:
            files = team.hist.revs[c.base].files; name = rng.choice(sorted(files))
            if not any(x in name for x in '*?[\n') and name == name.strip() and '//' not in name and all(gen.compatible(name, set(c.local) - {name}) for _ in [0]):
                r = world.cli(c.wc, 'revert', name, answers = ['yes'])
                if r.ok:
                    once('revert', paths('pull_file'), {name}, {name}); ctx.check(not paths('push_file'), 'a revert sends files', last)
                    c.local[name] = files[name]; c.dirty.discard(name); ctx.count('reverts'); ctx.evaluated(('revert',))
                    c.check('revert')
    if rng.random() < 0.3:
        config = {'repositories' : {n : dict(d, backup = True) for n, d in world.config['repositories'].items()}, 's3' : {'access_key' : 'a', 'secret_key' : 's', 'bucket' : 'b'}, 'crypto' : {'crypt_password' : 'pw'}, 'chunk_size' : 5000}
        for i in range(2):
            there = s3.all()
            r = run_repo(config, 'backup', s3 = s3); ctx.check(r.ok, 'a backup fails: %r' % r, r.extra.get('tb'))
            ctx.check(not i or s3.all() == there, 'a backup where there is nothing to do uploads something')
            ctx.check(all(k.endswith('/head') for k in s3.again()), 'a backup uploads what is there', s3.again()); ctx.count('backups')
            if not i:
                if c0.base != len(team.hist.revs) - 1: team.update(c0, 'server' if c0.plan().conflicts else None)
                if rng.random() < 0.5: continue
                c0.write(rng.choice(sorted(c0.local)) if c0.local else '/x', gen.unique(rng)); team.commit(c0, 'm')
                r = run_repo(config, 'backup', s3 = s3); ctx.check(r.ok, 'a backup fails: %r' % r, r.extra.get('tb'))
    ctx.sample({'revisions' : len(team.hist.revs)})

def commit(ctx, team, c, status, last, judge):
    rng = ctx.rng; world = team.world; server = world.server
    ctx.note(c.name, 'commit', status)
    send = [p for p, s in status.items() if s != 'deleted']
    if send and rng.random() < 0.5:
        k = rng.randrange(len(send))
        do = rng.choice(['drop', 'drop', 'drop_after'])
        server.rules([{'action' : 'push_file', 'nth' : k, 'do' : do}])
        r = world.cli(c.wc, 'commit', '-m', 'm')
        server.rules([])
        ctx.check(not r.ok, 'harness: a commit whose connection was lost ends well', r)
        there = set([p for a, p in last if a == 'push_file'][:k + (do == 'drop_after')])
        world.wait_unlocked()
        edited = None
        if there and rng.random() < 0.3:
            edited = rng.choice(sorted(there)); c.write(edited, gen.unique(rng)); status = c.status(); ctx.count('sent_again_as_edited')
        elif there and rng.random() < 0.3: # the time alone is another one, but it is there as it is
            p = rng.choice(sorted(there)); c.write(p, c.local[p]); status = c.status()
        if edited: there.discard(edited)
        r = world.cli(c.wc, 'commit', '-m', 'm')
        ctx.check(r.ok, 'a commit which is run again fails: %r' % r, r.extra.get('tb'))
        judge('commit which is run again', status, there); ctx.count('resumed_commits'); ctx.count('not_sent_again', len(there))
        ctx.evaluated(('commit', 'again', len(status), k, len(there), bool(edited)))
    else:
        r = world.cli(c.wc, 'commit', '-m', 'm')
        ctx.check(r.ok, 'a commit fails: %r' % r, r.extra.get('tb'))
        judge('commit', status)
        if not status: ctx.count('nothing_to_do')
        ctx.evaluated(('commit', len(send), len(status) - len(send)))
    if status: team.committed(c, 'm', status); team.hist.verify(ctx, team.reader, revs = team.hist.revs[-1:], what = 'after the commit')
    c.check('commit')
