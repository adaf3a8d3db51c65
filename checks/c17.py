""" every way of resolving conflicts, against a per-path reference model """
import os, shutil, errno
from vlib import gen
from vlib.core import Pause, KILL, HALF_KILL, ERR
from vlib.cw import Team, parse_conflicts
from vlib.diverge import base, server_side, client_side

LEVEL = 'exploration'
RULE = ('a case creates conflicts in every combination and resolves them to the server, to the client, or with a resolution file: per path choices in several spellings, after invalid, incomplete, '
        'excessive, truncated and outdated files which have to be refused without any change; the versions offered for comparison are compared with the server, also when they are offered again after or while somebody commits others; afterwards the next commit '
        'has to publish exactly the chosen sides. An evaluation is one run of update; distinct by way of resolving, kind of invalid file and combination of conflicts')
ASSUMPTIONS = ['edits change the modification time', 'no file stands where the server has a directory']
REQUIRED = ['to_server', 'to_client', 'manual', 'refused_files', 'comparison_files', 'published_choice', 'moved_on_same', 'chosen_again', 'commit_while_asked', 'moved_on_new', 'removed_after_choice', 'choices_interrupted', 'put_back']
QUICK_WALL = 18
THOROUGH_WALL = 700

def plan(tier): return 340 if tier == 'quick' else 4000

def resolution_path(c): return c.wc.path + '/.bvn/conflict_resolution'

def write_choices(text, choice, rng):
    """ fills in the resolution file like a user """
    out = []; current = None
    for line in text.split('\n'):
        if line.startswith('Path:  '): current = line[len('Path:  '):]
        if line.startswith('Resolution:') and current is not None:
            side = choice[current]
            line = rng.choice(['Resolution: ', 'Resolution:', 'Resolution:   ']) + rng.choice([side, side.upper(), side.capitalize(), side + ' '])
            current = None
        out.append(line)
    return '\n'.join(out)

def damage(text, choice, rng, c):
    """ a file that does not resolve exactly the conflicts: (kind, text) """
    k = rng.choice(['missing_block', 'extra_block', 'no_value', 'wrong_value', 'no_keyword', 'other_path', 'empty', 'no_blocks', 'both'])
    blocks = text.split('\n------------\n')
    filled = write_choices(text, choice, rng)
    fb = filled.split('\n------------\n')
    i = rng.randrange(1, len(fb))
    if k == 'missing_block':
        del fb[i]; return k, '\n------------\n'.join(fb)
    if k == 'extra_block':
        return k, filled + '------------\nPath:  /not in conflict\nClient Changed server Changed\nResolution: %s\n\n' % rng.choice(['client', 'server'])
    if k == 'no_value': fb[i] = blocks[i]; return k, '\n------------\n'.join(fb)
    if k in ('wrong_value', 'both'):
        side = choice[fb[i].split('\n')[0][len('Path:  '):]]
        lines = fb[i].split('\n'); lines[2] = 'Resolution: ' + ('client server' if k == 'both' else rng.choice(['mine', 'clientserver', 'c', '?', 'theirs', side[:-1], side + 'x']))
        fb[i] = '\n'.join(lines); return k, '\n------------\n'.join(fb)
    if k == 'no_keyword':
        lines = fb[i].split('\n'); j = rng.choice([0, 2]); lines[j] = lines[j].replace('Path' if j == 0 else 'Resolution', 'Foo', 1); fb[i] = '\n'.join(lines)
        return k, '\n------------\n'.join(fb)
    if k == 'other_path':
        lines = fb[i].split('\n'); lines[0] += rng.choice(['x', ' ', '/']); fb[i] = '\n'.join(lines)
        return k, '\n------------\n'.join(fb)
    if k == 'empty': return k, ''
    return k, blocks[0]

def manual(ctx, team, c, c0, plan, compare):
    """ the user wants to decide for each path; other people commit while the questions are asked """
    rng = ctx.rng
    offered = dict(team.hist.files); pause = None; kw = {}
    if rng.random() < 0.3:
        def others():
            team.update(c0, 'client')
            for p in plan.conflicts:
                if p in c0.local and rng.random() < 0.8: c0.write(p, gen.content(rng))
            team.commit(c0, 'while the user is asked'); ctx.count('commit_while_asked')
        at = rng.choice([1, 2])
        pause = Pause(others, -1)
        def hook(n, out):
            if n == at: os.write(pause.there.fileno(), b'p'); os.read(pause.there.fileno(), 1)
        kw = {'pause' : pause, 'asked_hook' : hook}
    r = team.world.cli(c.wc, 'update', answers = ['manual', 'y' if compare else 'N'], **kw)
    if pause is not None: pause.close()
    ctx.note('manual', r, plan.conflicts)
    ctx.check(r.exc == 'SystemExit', 'choosing manual does not end the update', r)
    team.conflicts_reported(r, plan)
    c.check('after choosing manual')
    ctx.check(os.path.exists(resolution_path(c)), 'no resolution file was written')
    if compare:
        for p, (_, s) in plan.conflicts.items():
            f = c.wc.path + '/.bvn/conflict_files' + p
            if s == 'Changed':
                ctx.check(os.path.isfile(f) and open(f, 'rb').read() == offered[p], 'the server version of %r offered for comparison is not the real one' % p)
                ctx.count('comparison_files')

def interrupted(ctx, team, c, choice):
    """ the update that carries out the choices is cut short; they hold until it is complete, and no longer """
    rng = ctx.rng; saved = os.path.join(ctx.dir, 'saved')
    shutil.copytree(c.wc.path, saved, symlinks = True)
    r = team.world.cli(c.wc, 'update', watch = [c.wc.path], arm = (-1, 0, 0))
    ctx.check(r.ok, 'a correct resolution file is refused: %r' % r, (choice, r.extra.get('tb')))
    n = r.extra['count']
    k = rng.choice([rng.randrange(n), rng.randrange(max(0, n - 6), n), rng.randrange(max(0, n - 6), n)]); action = rng.choice([KILL, KILL, HALF_KILL, ERR])
    shutil.rmtree(c.wc.path); shutil.copytree(saved, c.wc.path, symlinks = True); shutil.rmtree(saved)
    r = team.world.cli(c.wc, 'update', watch = [c.wc.path], arm = (k, action, errno.ENOSPC if action == ERR else 0))
    ctx.note('interrupted at', k, 'of', n, action, r)
    meta = c.wc.meta()
    done = meta is not None and meta[0] == team.hist.head
    ctx.count('choices_interrupted')
    return done, os.path.exists(resolution_path(c))

def stale(ctx, team, c, c0, choice):
    """ the choices were carried out, but the update was killed just before it removed them: they are not for later conflicts about the same files """
    rng = ctx.rng
    ctx.count('killed_before_removing_choices')
    if rng.random() < 0.5: team.world.cli(c.wc, 'status')
    for p in choice:
        for x in (c0, c):
            if p in team.frozen or not gen.compatible(p, x.local) and p not in x.local: return
    team.update(c0, 'server' if c0.plan().conflicts else None)
    for p in choice: c0.write(p, gen.unique(rng, 'new version'))
    team.commit(c0, 'again'); 
    for p in choice: c.write(p, gen.unique(rng, 'own version'))
    plan = c.plan()
    if any(s == 'Deleted' for _, s in plan.conflicts.values()): return
    own = {p : c.local[p] for p in choice}
    r = team.world.cli(c.wc, 'update', answers = ['client'])
    ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb'))
    got = c.wc.tree()
    ctx.check(all(got.get(p) == d for p, d in own.items()), 'a later conflict is settled with choices made for an earlier one, without asking')
    c.apply(plan, 'client'); c.check('update with a later conflict'); ctx.count('later_conflicts')

def case(ctx):
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', rng.choice(['ann', 'bob']))], pool = gen.paths(rng, rng.choice([4, 6, 9])))
    c0, c = team.copies
    base(ctx, team)
    for round in range(rng.choice([1, 2, 2])):
        for attempt in range(8):
            originals = {p : (d, os.stat(c.wc.full(p)).st_mtime_ns) for p, d in c.local.items() if p not in c.dirty and p in c.manifest and p not in team.frozen} # copies which the user keeps
            client_side(ctx, team, c, 0.7)
            team.update(c0, 'server' if c0.plan().conflicts else None)
            server_side(ctx, team, c0, 0.7)
            if c.plan().conflicts: break
        else: return
        plan = c.plan()
        way = rng.choice(['server', 'client', 'client', 'manual', 'manual', 'manual'])
        if way != 'manual':
            team.update(c, way, full = rng.random() < 0.2); ctx.count('to_' + way)
            choice = {p : way for p in plan.conflicts}
            ctx.evaluated((way, tuple(sorted(plan.conflicts.values()))))
        else:
            compare = rng.random() < 0.6
            manual(ctx, team, c, c0, plan, compare)
            if rng.random() < 0.35:
                # somebody commits other versions, the user starts over
                for p in plan.conflicts:
                    if p in c0.local and rng.random() < 0.7: c0.write(p, gen.content(rng))
                team.update(c0, 'client')
                team.commit(c0, 'other versions')
                plan = c.plan()
                os.remove(resolution_path(c))
                compare = rng.random() < 0.8
                manual(ctx, team, c, c0, plan, compare); ctx.count('chosen_again')
                ctx.evaluated(('manual again', compare, tuple(sorted(plan.conflicts.values()))))
            plan = c.plan() # somebody may have committed while the user was asked
            text = open(resolution_path(c), encoding = 'utf8', newline = '').read()
            choice = {p : rng.choice(['client', 'server']) for p in plan.conflicts}
            for _ in range(rng.choice([0, 1, 1, 2])):
                kind, bad = damage(text, choice, rng, c)
                open(resolution_path(c), 'w', encoding = 'utf8', newline = '').write(bad)
                r = team.world.cli(c.wc, 'update', answers = [])
                ctx.check(not r.ok, 'a resolution file that is wrong (%s) is accepted' % kind, bad)
                c.check('after refusing a resolution file (%s)' % kind)
                ctx.count('refused_files'); ctx.evaluated(('refused', kind))
            # the world moves on before the file is used
            moved = rng.random()
            if moved < 0.35:
                free = [p for p in team.pool if p not in plan.conflicts and gen.compatible(p, c0.local)]
                if moved < 0.2:
                    # other versions of what is in conflict already, or unrelated changes
                    for p in plan.conflicts:
                        if p in c0.local and rng.random() < 0.6: c0.write(p, gen.content(rng))
                    if team.commit(c0, 'later'):
                        plan = c.plan()
                        ctx.check(set(plan.conflicts) == set(choice), 'harness: the conflicts changed')
                        ctx.count('moved_on_same')
                elif free:
                    p = rng.choice(free)
                    if gen.compatible(p, c.local):
                        c.write(p, gen.unique(rng)); c0.write(p, gen.unique(rng)); team.commit(c0, 'later')
                        plan = c.plan()
                        open(resolution_path(c), 'w', encoding = 'utf8', newline = '').write(write_choices(text, choice, rng))
                        r = team.world.cli(c.wc, 'update')
                        ctx.check(not r.ok, 'a resolution file that does not cover a new conflict is accepted')
                        c.check('after refusing an outdated resolution file')
                        ctx.count('moved_on_new'); ctx.evaluated('outdated file')
                        text = text.rstrip('\n') + '\n\n------------\nPath:  %s\nClient Changed server Changed\nResolution: \n\n' % p
                        choice[p] = rng.choice(['client', 'server'])
            open(resolution_path(c), 'w', encoding = 'utf8', newline = '').write(write_choices(text, choice, rng))
            if rng.random() < 0.4:
                done, there = interrupted(ctx, team, c, choice)
                if done:
                    c.apply(plan, choice)
                    if there and rng.random() < 0.7: stale(ctx, team, c, c0, choice); ctx.evaluated('killed before removing the choices'); return
                    r = team.world.cli(c.wc, 'update')
                    ctx.check(r.ok, 'an update after a killed one fails: %r' % r, r.extra.get('tb'))
                    c.check('update after a killed one that was complete'); ctx.evaluated('killed when complete')
                    return
            r = team.world.cli(c.wc, 'update')
            ctx.note('resolved', r, choice)
            ctx.check(r.ok, 'a correct resolution file is refused: %r' % r, (choice, r.extra.get('tb')))
            c.apply(plan, choice); c.check('update with resolution file')
            ctx.check(not os.path.exists(resolution_path(c)), 'the resolution file is still there after it was used')
            ctx.count('manual'); ctx.evaluated(('manual', tuple(sorted((plan.conflicts[p], choice[p]) for p in plan.conflicts))))
        c.check_status('after resolving')
        # what was resolved to the server is no change any more, what was resolved to the client is one
        st = c.status()
        for p, side in choice.items():
            if side == 'server': ctx.check(p not in st, 'harness: %r' % p)
        # what was kept can still be changed or removed before it is published
        for p, side in sorted(choice.items()):
            if side == 'client' and p in c.local and p not in team.frozen and rng.random() < 0.12:
                c.remove(p); ctx.count('removed_after_choice')
            elif side == 'client' and p in originals and team.hist.files.get(p) != originals[p][0] and gen.compatible(p, c.local) and rng.random() < 0.35:
                # the user prefers the file from before the edit, and moves it back: it keeps its time
                d, t = originals[p]
                c.write(p, d); os.utime(c.wc.full(p), ns = (t, t)); ctx.count('put_back')
                ctx.evaluated(('put back', plan.conflicts[p]))
        if rng.random() < 0.4: c.check_status('after further changes to what was kept')
        kept = {p : c.local.get(p) for p, side in choice.items() if side == 'client'}
        team.commit(c, 'resolved')
        for p, d in kept.items():
            ctx.check(team.hist.files.get(p) == d, 'the local version of %r was chosen but not published' % p)
            ctx.count('published_choice')
        ctx.check(team.world.cli(c.wc, 'update').ok, 'update after the commit fails'); c.check('update after the commit')
    ctx.sample({'conflicts' : {p : v for p, v in plan.conflicts.items()}, 'choice' : choice})
