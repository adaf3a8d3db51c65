""" everything in the repository and the working copies is recorded before and after commands and requests that only look at something """
import os
from vlib import gen
from vlib.cw import Team
from vlib.diverge import base, server_side, client_side
from vlib.hist import client_commit
from vlib.s3 import S3
from vlib.wire import WireError, sha
from vlib.world import run_repo

LEVEL = 'exploration'
RULE = ('working copies with local changes, ignored and pull-ignored files and waiting conflicts, at a repository with history and often a pending commit of an interrupted client, run status, all listings with all options (also wrong ones), reverts of nothing or answered with no, updates and commits where there is nothing to do, commands that do not exist; '
        'a raw client makes all requests that read, right and wrong ones; the manager verifies (intact and damaged repositories) and backs up. After each of them every file and directory of all working copies and of the repository has to have the content, mode and time it had, the records of the working copies have to say the same, and the pending commit has to be resumable at the end. '
        'An evaluation is one command or request; distinct by what it was, its options, whether it succeeded and what was waiting')
ASSUMPTIONS = ['the database of sessions, lock files and temporary files of a database are not content']
REQUIRED = ['copy_looked', 'wire_looked', 'manager_looked', 'pending_kept', 'damaged_left', 'refused', 'with_local_changes', 'with_conflicts', 'nothing_to_do', 'entries_compared', 'changed_within_a_second']
QUICK_WALL = 15
THOROUGH_WALL = 400
NEEDS_REPO_MANAGER = True

def plan(tier): return 160 if tier == 'quick' else 3000

def snapshot(d, copy):
    out = {}
    for at, dirs, names in os.walk(d):
        private = copy and (at + '/').startswith(d + '/.bvn/')
        for x in dirs:
            full = os.path.join(at, x); st = os.lstat(full)
            if copy and at == d and x == '.bvn': continue
            if not (private and x in ('tmp', 'back')): out[full] = ('directory', st.st_mode, st.st_mtime_ns)
        for n in names:
            if n == 'lock_file' or n.startswith('manifest.db') or '.db' in n and not copy: continue
            full = os.path.join(at, n); st = os.lstat(full)
            with open(full, 'rb') as f: out[full] = (f.read(), st.st_mode, st.st_mtime_ns)
    return out

def case(ctx):
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', 'bob')])
    world = team.world; c0, c = team.copies; store = world.store['repo']
    base(ctx, team)
    conflicts = False
    if rng.random() < 0.7:
        client_side(ctx, team, c, rng.choice([0.3, 0.6]))
        if rng.random() < 0.6: server_side(ctx, team, c0, 0.6)
        conflicts = bool(c.plan().conflicts)
    if rng.random() < 0.3:
        with open(c.wc.path + '/.bvn_ignore', 'w') as f: f.write(rng.choice(['/ignored*', '*.tmp', '']))
    for x in team.copies if rng.random() < 0.5 else [c]:
        for p in sorted(x.local):
            if rng.random() < 0.25 and p in x.manifest and p not in x.status(): # changed within the second, or back to a part of it
                t = os.stat(x.wc.full(p)).st_mtime_ns
                x.write(p, gen.unique(rng)); t += rng.choice([500000000, 1000000, -500000000, 999000000, -999000000])
                os.utime(x.wc.full(p), ns = (t, t)); ctx.count('changed_within_a_second')
    own = os.path.exists(c.wc.path + '/.bvn_ignore')
    if rng.random() < 0.2:
        own = True; pull_filters = rng.choice(team.pool)[:3] + '*'
        with open(c.wc.path + '/.bvn_pull_ignore', 'w') as f: f.write(pull_filters)
    if conflicts and rng.random() < 0.5: # a decision is waited for
        r = world.cli(c.wc, 'update', answers = ['manual', rng.choice(['y', 'n'])]); ctx.count('waiting' if not r.ok else 'not_waiting')
    w = world.wire('repo', 'ann', src = '127.251.0.3')
    puts = None
    if rng.random() < 0.6:
        p = world.wire('repo', 'bob', src = '127.251.0.4')
        puts = {'/pending %d' % i : gen.unique(rng) for i in range(rng.choice([1, 3]))}
        client_commit(p, team.hist.head, puts, [], 'pending', stop_before = 1 + len(puts))
        p.close(); world.wait_unlocked()
    if c.status(): ctx.count('with_local_changes')
    if conflicts: ctx.count('with_conflicts')
    world.cli(c.wc, 'status'); world.cli(c0.wc, 'status') # there may be an unfinished transaction, or a database to be created

    def records():
        out = [x.wc.meta() for x in team.copies]
        return out, snapshot(store, False), [snapshot(x.wc.path, True) for x in team.copies], sorted(os.listdir(os.path.dirname(store))), sorted(os.listdir(os.path.dirname(c.wc.path)))
    before = [records()]
    def same(what, key):
        now = records(); old = before[0]
        for a, b in [(old[1], now[1])] + list(zip(old[2], now[2])):
            ctx.count('entries_compared', len(b))
            if a != b: ctx.check(False, what + ' changes something', sorted((k, [str(x)[:60] for x in (a.get(k), b.get(k))]) for k in set(a) | set(b) if a.get(k) != b.get(k))[:4])
        ctx.check(now[0] == old[0], what + ' changes the records of a working copy', (old[0], now[0]))
        ctx.check(now[3:] == old[3:], what + ' puts something next to the repository or the working copy', now[3:])
        ctx.evaluated((key, conflicts, puts is not None))

    revs = team.hist.revs
    for _ in range(7 if ctx.quick else 20):
        k = rng.choice(['copy', 'copy', 'copy', 'wire', 'wire', 'manager'])
        if k == 'copy':
            x = rng.choice(team.copies)
            cmds = [['status'], ['status'], ['list-versions'], ['list-files'], ['list-files', '-h'], ['list-files', '-i'], ['list-files', '-h', '-i'], ['list-files', '--v', rng.choice(revs).id], ['list-files', '--v', 'x'], ['list-changes'],
                    ['list-changes', '-h'], ['list-changes', '--v', rng.choice(revs).id], ['list-changes', '-h', '-h'], ['list-ignored-files'], [], ['-h'], ['statuss'], ['revert'], ['revert', '-h', '-h'], ['revert', 'there is no such file'],
                    ['revert', '--all'], ['revert', '--v', rng.choice(revs).id, '*'], ['revert', '--v', rng.choice(revs).id, '--all'], ['revert', '-h', '*'], ['revert', '*'], ['revert', '--v', 'f' * 64, '*'], ['commit', '-m'], ['keygen']]
            if not x.status() and not (x is c and own): cmds += [['commit', '-m', 'm']] * 4
            if x is c0: cmds += [['update'], ['update'], ['update', '-f']] if not x.status() else []
            cmd = rng.choice(cmds)
            if cmd[:1] == ['keygen']: continue
            r = world.cli(x.wc, *cmd, answers = ['no'] * 3)
            ctx.check(r.kind == 'done', '%s hangs or dies: %r' % (cmd, r))
            if cmd[:1] in (['commit'], ['update']): ctx.count('nothing_to_do')
            if not r.ok: ctx.count('refused')
            ctx.count('copy_looked'); same('bvn ' + ' '.join(cmd), (tuple(a for a in cmd if len(a) < 20), r.ok))
        elif k == 'wire':
            rev = rng.choice([None, rng.choice(revs).id, rng.choice(revs).id, 'f' * 64]); n = rng.choice(['versions', 'files', 'changes', 'pull', 'find', 'find', 'login', 'half', 'session', 'unknown'])
            ok = True
            try:
                if n == 'versions': w.list_versions()
                elif n == 'files': ok = w.list_files(rev) is not None
                elif n == 'changes': ok = w.list_changes(rev) is not None
                elif n == 'pull': ok = w.pull(rng.choice(list(team.hist.files) + ['/none', '/../x', '']), rev)[0]['status'] == 'ok'
                elif n == 'find':
                    p = rng.choice(team.pool)
                    w.find_changed(rng.choice(['root', rng.choice(revs).id]), {p : {'path' : p, 'status' : rng.choice(['new', 'changed', 'deleted']), 'created' : 1, 'last_mod' : 2, 'server_file_hash' : None}} if rng.random() < 0.7 else None)
                elif n == 'login': world.wire('repo', rng.choice(['ann', 'bob'])).close()
                elif n == 'half': w.send_raw(w.preamble('list_files', w.base(), 100)[:rng.randrange(10, 80)]); raise OSError
                elif n == 'session': ok = w.req('list_versions', {'session_token' : 'x', 'repository' : 'repo'}, b'{}')[0]['status'] == 'ok'
                else: w.req('nothing', w.base(), b'{}')
            except (WireError, OSError, ValueError, KeyError):
                ok = False
                w.close(); w = world.wire('repo', 'ann', src = '127.251.0.3')
            if not ok: ctx.count('refused')
            ctx.count('wire_looked'); same('the request ' + n, ('wire', n, rev is None, ok))
        else:
            n = rng.choice(['verify', 'verify', 'damaged', 'backup'])
            config = {'repositories' : {a : dict(b, backup = True) for a, b in world.config['repositories'].items()}, 's3' : {'access_key' : 'a', 'secret_key' : 's', 'bucket' : 'b'}, 'crypto' : {'crypt_password' : 'pw'}, 'chunk_size' : 5000}
            saved = None
            if n == 'damaged':
                full = rng.choice(sorted(f for f, v in before[0][1].items() if v[0] != 'directory' and ('/files/' in f[len(store):] or '/index/' in f[len(store):])))
                data, mode, t = before[0][1][full]
                if not data: continue
                saved = before[0]
                i = rng.randrange(len(data))
                with open(full, 'wb') as f: f.write(data[:i] + bytes([data[i] ^ 1]) + data[i + 1:])
                before[0] = records()
            r = run_repo(config, 'backup' if n == 'backup' else 'verify', s3 = S3(os.path.join(ctx.dir, 's3')))
            ctx.check(r.kind == 'done' and (r.ok or n == 'damaged'), '%s fails: %r' % (n, r), r.extra.get('tb'))
            ctx.count('manager_looked'); same('bvn_repo ' + n, ('manager', n))
            if saved is not None:
                with open(full, 'wb') as f: f.write(data)
                os.utime(full, ns = (t, t)); before[0] = saved; ctx.count('damaged_left')
    w.close()
    for x in team.copies:
        if not (x is c and own): x.check_status('status, after all that,')
    if puts is not None:
        p = world.wire('repo', 'bob', src = '127.251.0.4')
        h, partial = p.begin(team.hist.head)
        ctx.check(h['status'] == 'ok', 'a pending commit can not be resumed after it was only looked', h)
        got = {f['path'] : f['hash'] for f in partial}
        ctx.check(got == {a : sha(b) for a, b in puts.items()}, 'what a pending commit sent is gone after it was only looked', (sorted(got), sorted(puts)))
        p.abort(); p.close(); ctx.count('pending_kept')
    ctx.sample({'revisions' : len(revs), 'pending' : bool(puts)})
