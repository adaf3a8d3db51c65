""" C07: history queries agree with each other and with what was committed """
import json, os, fnmatch, time
from datetime import datetime, timezone
from vlib import gen
from vlib.cw import Team
from vlib.world import World
from vlib.life import Life
from vlib.wire import WireError, sha

LEVEL = 'exploration'
RULE = ('a case grows a history by random commits (with hostile names, files becoming directories, re-created and identical files, other users) and after '
        'each of them (with the clock of the server set back and forth, and in several time zones; a revision has to show when it was made) asks for the changes since every earlier revision, for lists and for contents, comparing everything with the model; unknown and '
        'malformed revisions and paths are mixed in; other cases run the list commands of the client in working copies at different revisions, with failing requests and wrong arguments. An evaluation is one pair of revisions, one malformed question or one list command; distinct by distance of the pair '
        'and shape of the change set, or by kind of malformed question')
ASSUMPTIONS = ['the revision list shows at most the last 52 revisions']
REQUIRED = ['pairs', 'malformed', 'reads_checked', 'file_to_dir', 'dir_to_file', 'long_histories', 'clock_set', 'listings', 'listings_refused', 'listings_failed', 'times_compared']
QUICK_WALL = 15
THOROUGH_WALL = 700

def plan(tier): return 600 if tier == 'quick' else 2500

def turn(ctx, life):
    """ a file becomes a directory, or the other way round """
    rng = ctx.rng
    files = life.hist.files
    from vlib.hist import client_commit, expected
    p = rng.choice(sorted(files))
    if p.count('/') > 1 and rng.random() < 0.6:
        d = p.rsplit('/', 1)[0]
        gone = [q for q in files if q.startswith(d + '/')]
        puts = {d : gen.content(rng)}; deletes = gone; name = 'dir_to_file'
    else:
        q = p + '/' + gen.name(rng)
        puts = {q : gen.content(rng)}; deletes = [p]; name = 'file_to_dir'
    who, src = life.random_who()
    w = life.connect(who, src)
    h = client_commit(w, life.hist.head, puts, deletes, name)
    w.close()
    ctx.check(h['status'] == 'ok', 'commit refused', h)
    f, c = expected(files, puts, deletes)
    life.hist.add(h['head'], who, name, files = f, changes = c)
    ctx.count(name)

def malformed(ctx, w, life, other_rev):
    rng = ctx.rng; hist = life.hist
    rev = rng.choice(hist.revs)
    known = {r.id for r in hist.revs}
    tree = None
    store = life.world.store[life.repo]
    bad_revs = ['', 'root', '0' * 64, rev.id[:-1], rev.id[:2], rev.id + '0', rev.id.upper(), rev.id[:2] + '/' + rev.id[2:], '../head', '..', '/',
                rev.id[:62] + 'zz', ' ' + rev.id, rev.id + ' ', sha(b'x'), "' or 1=1", rev.id[::-1], '%s' % sha(rng.choice(sorted(rev.files.values()) or [b''])), other_rev,
                rev.id[2:], 'head', 'a' * 5000, '\u0660' * 64]
    import os
    trees = []
    for base, _, names in os.walk(os.path.join(store, 'index')):
        for n in names:
            h = os.path.basename(base) + n
            if h not in known: trees.append(h)
    if trees: bad_revs.append(rng.choice(sorted(trees)))
    bad = rng.choice([b for b in bad_revs if b is not None])
    if bad in known: return
    path = rng.choice(sorted(rev.files)) if rev.files else '/x'
    q = rng.randrange(5)
    ok_path = None
    if q == 0: kind = 'list_files'; h, b = w.req('list_files', w.base(show_head = '0', version_id = bad), b'{}')
    elif q == 1: kind = 'list_changes'; h, b = w.req('list_changes', w.base(show_head = '0', version_id = bad), b'{}')
    elif q == 2: kind = 'pull_rev'; h, b = w.req('pull_file', w.base(path = path, use_head = '0', version_id = bad), b'{}')
    elif q == 3:
        kind = 'changes_since'
        if bad in ('root',): return
        h, b = w.req('find_changed', w.base(previous_revision = bad, include_unchanged = str(rng.randrange(2))),
                     json.dumps({'client_changes' : '{}'}).encode())
    else:
        kind = 'pull_path'
        bad = rng.choice(['', '/', '//', path + '/', path + '/x', path.rsplit('/', 1)[0] or '/', '/no such file', '/' + path, path[:-1], path + ' ', ' ' + path,
                          '/../head', '/..' + path, '/.' + path, path.upper(), '\\', '/files', '/' + sha(b'')])
        if bad in rev.files: return
        h, b = w.req('pull_file', w.base(path = bad, use_head = '0', version_id = rev.id), b'{}')
        # the same name without or with more leading separators denotes no other file
        if h['status'] == 'ok' and '/' + bad.lstrip('/') == path and b == rev.files[path]: h = {'status' : 'same'}
    ctx.count('malformed')
    ctx.check(h['status'] != 'ok', 'a malformed question (%s, %r) is answered with data' % (kind, bad), (h, b[:300]))
    ctx.check(b in (b'', b'{}') or len(b) < 200, 'an error reply carries data', (kind, h, b[:300]))
    ctx.evaluated(('malformed', kind, bad if len(bad) < 20 else len(bad)))

MESSAGES = ['m', 'two words', 'ümlaut 日本', 'line\nbreak', 'Commit:  ' + 'f' * 64, 'By user: eve', ' ']

def listing(ctx):
    """ what the list commands of the client print in working copies at different revisions """
    rng = ctx.rng
    team = Team(ctx, [('w0', 'ann'), ('w1', 'bob')])
    for step in range(3 if ctx.quick else 8):
        c = rng.choice(team.copies)
        if step or rng.random() < 0.7:
            if step and rng.random() < 0.8: team.update(c, 'server' if c.plan().conflicts else None)
            c.edit(rng, team.pool, rng.choice([1, 2, 4])); team.commit(c, rng.choice(MESSAGES))
        if step == 1 and ctx.index % 50 == 19: team.long(60)
        for _ in range(3): ask(ctx, team, rng.choice(team.copies))
    ctx.sample({'listings of' : [r.changes for r in team.hist.revs][:3]})

def ask(ctx, team, c):
    rng = ctx.rng; hist = team.hist; server = team.world.server
    what = rng.choice(['list-versions', 'list-files', 'list-changes'])
    args = []; rev = c.base; ok = True; only = False
    if what != 'list-versions':
        k = rng.choice(['', '', '-h', '--v', '--v', 'unknown', 'both', 'short'])
        if k == '-h': args = ['-h']; rev = len(hist.revs) - 1
        elif k == '--v' and hist.revs: rev = rng.randrange(len(hist.revs)); args = ['--v', hist.revs[rev].id]
        elif k == 'unknown': args = ['--v', rng.choice(['f' * 64, 'x', '0', 'HEAD', '../head'] + [x.id[:-1] for x in hist.revs[-1:]])]; ok = False
        elif k == 'both' and hist.revs: args = rng.choice([['-h', '--v', hist.revs[0].id], ['--v', hist.revs[0].id, '-h'], ['-h', '-h']]); ok = False
        elif k == 'short': args = ['--v']; ok = False
        if what == 'list-files' and ok and rng.random() < 0.2:
            only = True; args.insert(rng.choice([0, len(args)]), '-i')
            filters = [rng.choice(team.pool)[:3] + '*', '*' + rng.choice(team.pool)[-1:]]
            filters = [f for f in filters if '[' not in f and '\n' not in f and len(f) > 1]
            with open(c.wc.path + '/.bvn_pull_ignore', 'w') as h: h.write('\n'.join(filters))
    action = what.replace('-', '_')
    fail = rng.random() < 0.2
    if fail: server.rules([{'action' : action, 'nth' : 0, 'do' : rng.choice(['fail', 'drop', 'drop_after', 'cut']), 'bytes' : rng.choice([0, 10, 200, 300, 400, 500])}])
    r = team.world.cli(c.wc, what, *args)
    hit = False
    if fail: hit = any(x[2] for x in server.seen()); server.rules([])
    if only: os.remove(c.wc.path + '/.bvn_pull_ignore')
    ctx.note(c.name, what, args, r, 'base', c.base, 'revs', len(hist.revs), 'failing' if hit else '')
    ctx.check(r.kind == 'done', '%s hangs: %r' % (what, r))
    if c.base >= 0: c.check(what)
    ctx.count('listings')
    ctx.evaluated((what, tuple(a for a in args if a[0] == '-'), ok, hit, rev == c.base, len(hist.revs) - rev if rev >= 0 else -1))
    if not ok:
        ctx.check(r.exc == 'SystemExit' or hit and not r.ok, '%s %s ends with %r' % (what, args, r), r.extra.get('tb')); ctx.count('listings_refused'); return
    if hit:
        # either the whole answer or a failure
        ctx.count('listings_failed')
        if not r.ok: return
    elif what == 'list-versions' or rev >= 0: ctx.check(r.ok, '%s %s fails: %r' % (what, args, r), r.extra.get('tb'))
    elif not r.ok: return # nothing is checked out
    lines = r.out.split('\n')
    if what == 'list-versions':
        shown = [x for x in hist.revs if 'Commit:  ' + x.id in lines]
        ctx.check(len(shown) >= min(len(hist.revs), 50) and shown == hist.revs[len(hist.revs) - len(shown):], 'list-versions does not show the latest revisions', (len(shown), len(hist.revs), r.out[-500:]))
        text = r.out; at = []
        for x in shown: at.append(text.index('Commit:  ' + x.id))
        ctx.check(at == sorted(at), 'list-versions shows the revisions in another order')
        for i, x in enumerate(shown):
            part = text[at[i]: at[i + 1] if i + 1 < len(at) else len(text)]
            ctx.check('By user: ' + x.by in part.split('\n'), 'list-versions shows another author', (x.by, part))
            ctx.check(x.msg in part, 'list-versions shows another message', (x.msg, part))
            if x.date: ctx.check(x.date[0] in part, 'list-versions shows another date', (x.date, part))
    elif what == 'list-files':
        want = set(hist.revs[rev].files) if rev >= 0 else set()
        if only: want = {p for p in want if any(fnmatch.fnmatch(p, f) for f in filters)}
        got = [l for l in lines if l.startswith('/')]
        ctx.check(sorted(got) == sorted(want), 'list-files does not show the files of the revision', (args, sorted(set(got) ^ want)))
    else:
        want = hist.revs[rev].changes if rev >= 0 else {}
        ctx.check(c.parse_status(r.out) == want, 'list-changes does not show the changes of the revision', (args, r.out[-300:], want))
    if what != 'list-versions' and rev >= 0: ctx.check(hist.revs[rev].id in r.out, '%s names another revision' % what, r.out[-200:])

def shown_time(ctx, world, r, rev, before, zone):
    """ a revision shows when it was made, by the clock of the server, in UTC """
    v = next((v for v in r.list_versions() if v['id'] == rev), None)
    if v is None: return
    try: t = datetime.strptime(v['utc_date_time'], '%d-%m-%Y %H:%M:%S:%f').replace(tzinfo = timezone.utc).timestamp()
    except ValueError: return # shown in another way
    shift = world.server.clock_shift
    ctx.check(before + shift - 300 <= t <= time.time() + shift + 300, 'a revision shows another time than that at which it was made (UTC)', (v['utc_date_time'], before + shift, zone))
    ctx.count('times_compared')

def case(ctx):
    zone = ctx.rng.choice(['UTC0', 'XXX-5:30', 'XXX8', 'XXX-1', 'XXX3YYY,M3.2.0,M11.1.0'])
    os.environ['TZ'] = zone; time.tzset() # for the server as well
    if ctx.index % 5 == 4: return listing(ctx)
    queries(ctx)

def queries(ctx):
    rng = ctx.rng
    world = World(ctx, repos = ('repo', 'other'))
    life = Life(ctx, world)
    other = Life(ctx, world, repo = 'other'); other.commit()
    other_rev = other.hist.head
    r = world.wire(src = '127.250.0.9')
    ctx.check(r.get_head() == 'root' and r.list_versions() == [], 'an empty repository has a history')
    long = ctx.index % 50 == 9
    if long: life.long(); ctx.count('long_histories')
    for step in range(rng.choice([4, 7, 11]) if not long else 2):
        if rng.random() < 0.4: # the clock of the server is set, the order of the revisions does not come from it
            r.close()
            world.server.clock(rng.choice([-1, -1, 1]) * rng.choice([1.5, 3700, 86400 * 2, 86400 * 31, 86400 * 400, 86400 * 8000])); ctx.count('clock_set')
            r = world.wire(src = '127.250.0.9')
        if step and rng.random() < 0.3 and life.hist.files: turn(ctx, life)
        else:
            n = len(life.hist.revs); before = time.time()
            life.event(['commit'] * 6 + ['abort', 'interrupt', 'resume'])
            if len(life.hist.revs) == n + 1: shown_time(ctx, world, r, life.hist.head, before, os.environ['TZ'])
        hist = life.hist
        if not hist.revs: continue
        hist.verify(ctx, r, revs = [hist.revs[-1]], what = 'head')
        for i in range(-1, len(hist.revs)):
            if long and 2 <= i < len(hist.revs) - 2 and (i + step) % 8: continue
            since = hist.revs[i].id if i >= 0 else 'root'
            old = hist.revs[i].files if i >= 0 else {}
            h, res = r.find_changed(since)
            ctx.check(res is not None, 'the changes since an earlier revision are refused', h)
            ctx.check(res['head'] == hist.head, 'find_changed names another head', res['head'])
            head = hist.revs[-1]
            ctx.check(res['commit_by'] == head.by and (head.msg == '' or res['commit_msg'] == head.msg) and
                      (head.date is None or (res['commit_time'], res['commit_msg']) == head.date),
                      'find_changed describes the head wrongly', (res['commit_by'], res['commit_msg'], res['commit_time']))
            sc = res['sorted_changes']
            state = {p : sha(d) for p, d in old.items()}
            for c in sc['client_pull_files']: state[c['path']] = c['hash']
            for c in sc['to_delete_on_client']: state.pop(c['path'], None)
            want = {p : sha(d) for p, d in hist.files.items()}
            ctx.check(state == want, 'the changes since revision %d of %d do not lead to the head' % (i + 1, len(hist.revs)),
                      {p : (state.get(p), want.get(p)) for p in set(state) | set(want) if state.get(p) != want.get(p)})
            both = {c['path'] for c in sc['client_pull_files']} & {c['path'] for c in sc['to_delete_on_client']}
            ctx.check(not both and not sc['conflict_files'] and not sc['client_push_files'] and not sc['to_delete_on_server'],
                      'contradicting changes are reported', sc)
            # nothing which every revision in between left alone is reported
            touched = {p for x in hist.revs[i + 1:] for p in x.changes}
            named = {c['path'] for l in ('client_pull_files', 'to_delete_on_client') for c in sc[l]}
            ctx.check(named == touched, 'the reported changes are not those of the revisions in between', (sorted(named ^ touched)))
            ctx.count('pairs')
            ctx.evaluated((len(hist.revs) - 1 - i, len(sc['client_pull_files']), len(sc['to_delete_on_client'])))
            if rng.random() < 0.2:
                h, res = r.find_changed(since, unchanged = True)
                sc = res['sorted_changes']
                pulled = {c['path'] : c['hash'] for c in sc['client_pull_files']}
                ctx.check(pulled == want, 'the full comparison does not name every file of the head', {'missing' : sorted(set(want) - set(pulled)), 'extra' : sorted(set(pulled) - set(want))})
        for _ in range(2):
            try: malformed(ctx, r, life, other_rev)
            except WireError as e: ctx.fail('a malformed question breaks the connection instead of getting an error reply', repr(e))
    life.hist.verify(ctx, r, what = 'at the end')
    ctx.sample({'events' : life.trace, 'changes' : [x.changes for x in life.hist.revs][:3]})
