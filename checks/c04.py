""" interrupted and repeated commits by the real client against a model of working copy and history """
import os
from vlib import gen
from vlib.core import lib, KILL, HALF_KILL, Violation
from vlib.cw import Team
from vlib.diverge import base, server_side
from vlib.hist import adopt_head

LEVEL = 'exploration'
RULE = ('a case cuts off commits of a working copy: connection dropped before or after the n-th request, after the n-th byte the client or the server sends, error replies, the server killed at a request or a '
        'file-system operation; between the attempts files are edited, deleted, restored, reverted, ignored, another working copy of the same user or another user commits, or the server restarts; '
        'the attempt that gets through is compared with the disk of the working copy, its records and the whole history. An evaluation is one attempt; distinct by kind and place of the cut, '
        'edits in between, and what was finally published')
ASSUMPTIONS = ['edits change the modification time', 'after a commit whose reply was lost the user updates first']
REQUIRED = ['cut_attempts', 'resumed_uploads', 'finished', 'other_copy_finished', 'lost_reply', 'server_killed', 'restored', 'reverted', 'newly_ignored', 'abandoned_changes']
QUICK_WALL = 20
THOROUGH_WALL = 800

def plan(tier): return 400 if tier == 'quick' else 4000

CUTS = ['drop', 'drop_after', 'fail', 'kill', 'kill_after', 'client_bytes', 'server_bytes', 'arm', 'fail_after']

def attempt(ctx, team, c, rng):
    """ one commit which is cut off somewhere; True if it was published """
    status = c.status()
    files, changes = team.expected_commit(c, status)
    sizes = sum(len(c.local[p]) for p in status if p in c.local)
    how = rng.choice(CUTS)
    nreq = 4 + sum(1 for s in status.values() if s != 'deleted') + ('deleted' in status.values())
    before = None; where = None
    srv = team.world.server
    srv.rules([])
    if how == 'client_bytes':
        # somewhere in what the client sends: about 400 bytes per request
        where = rng.randrange(300, 330 * nreq + sizes + 400)
        before = lambda: lib.sh_cut(where)
    elif how == 'server_bytes':
        where = (rng.choice(['begin_commit', 'push_file', 'delete_files', 'commit']), rng.randrange(3), rng.randrange(1, 250))
        srv.rules([{'action' : where[0], 'nth' : where[1] if where[0] == 'push_file' else 0, 'do' : 'cut', 'bytes' : where[2]}])
    elif how == 'arm':
        where = (rng.randrange(200), rng.choice([KILL, HALF_KILL]))
        srv.arm(where[0], where[1], 0)
    else:
        action = rng.choice(['begin_commit', 'push_file', 'push_file', 'push_file', 'delete_files', 'commit'])
        where = (action, rng.randrange(0, 4) if action == 'push_file' else 0)
        srv.rules([{'action' : where[0], 'nth' : where[1], 'do' : how}])
    r = team.world.cli(c.wc, 'commit', '-m', 'cut', before = before)
    ctx.note('cut', how, where, '->', r, status)
    if how in ('arm', 'kill', 'kill_after'):
        if srv.pid is not None and how == 'arm': alive = srv.alive()
        else: alive = srv.ask('count') is not None
        if not alive:
            team.drop_reader()
            if srv.pid is not None: srv._reap()
            if not srv.start(): ctx.fail('the server does not start again')
            ctx.count('server_killed')
        else: srv.disarm()
    srv.rules([])
    team.world.wait_unlocked()
    ctx.count('cut_attempts')
    if r.ok and 'Commit ok' in r.out:
        team.committed(c, 'cut', status); c.check('commit')
        team.hist.verify(ctx, team.reader, revs = team.hist.revs[-1:], what = 'commit')
        ctx.evaluated((how, 'through')); return True
    ctx.check(r.kind == 'done', 'the client does not end after a broken connection: %r' % r)
    # the client may not believe anything; the server may have published it
    c.check('cut off commit')
    moved = adopt_head(ctx, team.reader, team.hist, [(c.user, 'cut', files, changes)], 'cut off commit')
    team.hist.verify(ctx, team.reader, revs = team.hist.revs[-1:], what = 'cut off commit')
    ctx.evaluated((how, where[0] if isinstance(where, tuple) and isinstance(where[0], str) else '', moved, r.exc))
    if moved:
        ctx.count('lost_reply')
        team.update(c, rng.choice(['client', 'server']) if c.plan().conflicts else None)
        return True
    return False

def meddle(ctx, team, c, rng, cut_status):
    """ what the user does before trying again """
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(['edit', 'edit', 'delete', 'restore', 'revert', 'ignore', 'swap', 'new'])
        mine = sorted(p for p in cut_status if p in c.local and p not in team.frozen)
        if k == 'edit' and mine: c.write(rng.choice(mine), gen.content(rng))
        elif k == 'delete' and mine: c.remove(rng.choice(mine), rng.random() < 0.6)
        elif k == 'restore':
            # the content of before the change, or a file that was deleted comes back
            l = sorted(p for p in cut_status if p in team.hist.files and gen.compatible(p, c.local))
            if l:
                p = rng.choice(l); c.write(p, team.hist.files[p]); ctx.count('restored')
        elif k == 'revert':
            l = sorted(p for p in cut_status if p in team.hist.files and gen.compatible(p, c.local) and not any(x in p for x in '[]*?'))
            if l and c.base == len(team.hist.revs) - 1:
                p = rng.choice(l)
                # a path that begins with anything but / or * is taken relative to the directory
                r = team.world.cli(c.wc, 'revert', p, answers = ['yes'])
                ctx.check(r.ok, 'revert fails: %r' % r, r.extra.get('tb'))
                c.local[p] = team.hist.files[p]; c.dirty.discard(p)
                from vlib.wire import sha
                c.manifest[p] = sha(c.local[p])
                c.check_disk('revert'); ctx.count('reverted')
        elif k == 'ignore' and not c.filters:
            l = [p for p in mine if not any(x in p for x in '[]*?\r\x0b\x0c\x1c\x1d\x1e') and p not in c.manifest and p.strip() == p]
            if l and gen.compatible('/.bvn_ignorex', c.local):
                p = rng.choice(l)
                c.write('/.bvn_ignore', (p + '\n').encode()); team.frozen.add('/.bvn_ignore')
                ctx.count('newly_ignored')
        elif k == 'swap' and len(mine) > 1:
            a, b = rng.sample(mine, 2); x, y = c.local[a], c.local[b]
            c.write(a, y); c.write(b, x)
        elif k == 'new': c.edit(rng, team.pool, 1, ('write',))

def case(ctx):
    rng = ctx.rng
    pool = gen.paths(rng, rng.choice([5, 8, 12]))
    team = Team(ctx, [('w0', 'ann'), ('w1', 'ann'), ('w2', 'bob')], pool = pool, watch_server = True)
    base(ctx, team, rng.randrange(2, 5))
    for round in range(rng.choice([1, 2, 2])):
        c = rng.choice(team.copies[:2])
        for x in team.copies: team.update(x, 'server' if x.plan().conflicts else None)
        c.edit(rng, pool, rng.choice([3, 5, 8]))
        if not c.status(): c.write(pool[0], gen.unique(rng)) if gen.compatible(pool[0], c.local) else c.edit(rng, pool, 4, ('touch',))
        if not c.status(): continue
        cut_status = {}
        published = False
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not c.status(): break
            cut_status.update(c.status())
            published = attempt(ctx, team, c, rng)
            if published: break
            meddle(ctx, team, c, rng, cut_status)
            if rng.random() < 0.15:
                team.drop_reader(); team.world.server.restart()
        who = c
        r = rng.random()
        if r < 0.3: # somebody else finishes first
            who = rng.choice([x for x in team.copies if x is not c])
            team.update(who, 'server' if who.plan().conflicts else None)
            who.edit(rng, pool, rng.choice([1, 2, 4]))
            if rng.random() < 0.5 and not published:
                # the same paths as in the interrupted commit
                for p in cut_status:
                    if gen.compatible(p, who.local) and p not in team.frozen and rng.random() < 0.5: who.write(p, rng.choice([gen.content(rng), c.local.get(p, b'gone')]))
            ctx.count('other_copy_finished')
        st = who.status()
        n = len(team.hist.revs)
        resumed = team.world.server.rules([])
        if team.commit(who, 'finish'):
            ctx.count('finished')
            pushed = sum(1 for a, p, d in team.world.server.seen() if a == 'push_file')
            if pushed < sum(1 for s in st.values() if s != 'deleted'): ctx.count('resumed_uploads')
            if set(cut_status) - set(team.hist.revs[-1].changes): ctx.count('abandoned_changes')
            who.check_status('after the commit')
            ctx.evaluated(('finish', who is c, tuple(sorted(team.hist.revs[-1].changes.values())), pushed))
        if who is not c:
            team.update(c, rng.choice(['client', 'server']) if c.plan().conflicts else None)
            team.commit(c, 'own after all'); c.check_status('at the end')
    team.hist.verify(ctx, team.reader, what = 'at the end')
    ctx.sample({'cut' : cut_status, 'revisions' : [r.changes for r in team.hist.revs[-3:]]})
