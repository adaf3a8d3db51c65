""" clients and servers of every combination of versions, real ones with other version numbers and a raw client, and what they do to each other """
import os
from vlib import gen
from vlib.hist import Hist, client_commit, expected
from vlib.wire import Wire, WireError
from vlib.world import World, b64

LEVEL = 'exploration'
RULE = ('client and server processes get generated version numbers and generated oldest versions they accept; all commands which talk to the server are run in working copies with local changes and with revisions to pull, and checkouts are made; a raw client logs in with versions around the limit, without one, and with what is no number, '
        'for new sessions and for sessions it has. Where a side is older than what the other accepts, the command has to fail with a message before any request but those of the log-in, and nothing may have changed on either side; where both fit, it has to work. An evaluation is one command or log-in; distinct by command and the relations of the versions')
ASSUMPTIONS = ['the numbers are those in bversion/version_numbers.py']
REQUIRED = ['old_clients', 'old_servers', 'fitting', 'raw_old', 'raw_fitting', 'raw_garbage', 'sessions_kept', 'checkouts_refused', 'checkouts']
QUICK_WALL = 12
THOROUGH_WALL = 300

def plan(tier): return 300 if tier == 'quick' else 4000

def snapshot(d):
    out = {}
    for base, dirs, names in os.walk(d):
        for x in dirs: out[os.path.join(base, x)] = None
        for n in names:
            full = os.path.join(base, n)
            if n != 'lock_file' and not n.startswith('manifest.db'): out[full] = (open(full, 'rb').read(), os.stat(full).st_mtime_ns)
    for x in ('/.bvn/tmp', '/.bvn/back', '/.bvn'): out.pop(d + x, None)
    return out

def case(ctx):
    rng = ctx.rng
    from bversion import version_numbers as vn
    real = {k : v for k, v in vars(vn).items() if isinstance(v, int)}
    base = rng.choice([3, 3, 9, 99, rng.randrange(1, 2000)])
    near = lambda: max(0, base + rng.choice([-1, 0, 0, 0, 1, 7, -base + 1]))
    server = {'server_version' : near(), 'minimum_client_version' : near(), 'client_version' : near(), 'minimum_server_version' : near()}
    client = {'server_version' : near(), 'minimum_client_version' : near(), 'client_version' : near(), 'minimum_server_version' : near()}
    if rng.random() < 0.3: client['client_version'] = server['minimum_client_version'] + rng.choice([-1, 0])
    if rng.random() < 0.3: client['minimum_server_version'] = server['server_version'] + rng.choice([1, 0])
    if rng.random() < 0.25: client['client_version'] = max(client['client_version'], server['minimum_client_version']); client['minimum_server_version'] = min(client['minimum_server_version'], server['server_version'])
    def use(v):
        for k, x in v.items(): setattr(vn, k, x)
    try:
        use(server)
        world = World(ctx)
        use(real)
        run(ctx, world, server, client, lambda: use(client))
    finally: use(real)

def raw_login(w, key, version, repo = 'repo', user = 'ann'):
    h = w.begin_auth(repo)
    hd = {'auth_token' : h['auth_token'], 'signature' : Wire.sign(key, h['auth_token']), 'user' : user, 'repository' : repo}
    if version is not None: hd['client_version'] = version
    return w.req('authenticate', hd, b'{}')[0]

def run(ctx, world, server, client, use):
    rng = ctx.rng; key = world.keys['ann'][1]
    least = server['minimum_client_version']
    # -------------------------------- raw
    w = world.wire(user = False); w.connect()
    for _ in range(4):
        v = max(-1, least + rng.choice([-1, -1, 0, 1, 5, -least]))
        h = raw_login(w, key, str(v)); old = v < least
        ctx.check((h.get('status') == 'ok') == (not old), 'a client of version %d is %s by a server that needs at least %d' % (v, 'accepted' if old else 'refused', least), h)
        ctx.check(('session_token' in h) == (not old), 'a refused client gets a session', h)
        if old: ctx.check(h.get('msg', '') != '', 'a client that is too old is refused without a message')
        else: ctx.check(h.get('server_version') == str(server['server_version']), 'the server tells another version than it has', h)
        ctx.count('raw_old' if old else 'raw_fitting'); ctx.evaluated(('raw', old, v - least))
    # a session which is there is no way around
    h = raw_login(w, key, str(least))
    token = h['session_token']
    for v in (least - 1, least, least + 1):
        h = w.req('authenticate', {'client_version' : str(v), 'session_token' : token, 'repository' : 'repo'}, b'{}')[0]
        ctx.check((h.get('status') == 'ok') == (v >= least), 'a client of version %d with a session is treated wrongly by a server that needs at least %d' % (v, least), h)
        if v >= least: ctx.check(h.get('server_version') == str(server['server_version']), 'the server tells another version than it has', h)
        ctx.count('sessions_kept'); ctx.evaluated(('session', v - least))
    for bad in rng.sample([None, '', 'x', '1.5.0', '0x99999', '99 99', '-', 'None'], 2):
        try: h = raw_login(w, key, bad)
        except (WireError, OSError): h = {}; w.close(); w.connect()
        ctx.check('session_token' not in h, 'a client which names no version is accepted', (bad, h)); ctx.count('raw_garbage'); ctx.evaluated(('garbage', bad))
    # -------------------------------- something to do: a working copy that is behind and has changes
    w.close(); w = world.wire(user = False); w.connect()
    h = raw_login(w, key, str(least)); w.session = h['session_token']; w.repo = 'repo'
    hist = Hist()
    def commit(puts):
        r = client_commit(w, hist.head, puts, [], 'm'); ctx.check(r['status'] == 'ok', 'a commit is refused', r)
        f, ch = expected(hist.files, puts, []); hist.add(r['head'], 'ann', 'm', files = f, changes = ch)
    commit({'/a' : b'a1', '/b' : b'b1'})
    wc = world.new_wc('wc', 'ann')
    fits = client['client_version'] >= least and server['server_version'] >= client['minimum_server_version']
    why = [] if fits else (['old_clients'] if client['client_version'] < least else []) + (['old_servers'] if server['server_version'] < client['minimum_server_version'] else [])
    cmds = [('update',), ('update', '-f'), ('commit', '-m', 'm'), ('revert', '-h', 'a'), ('list-versions',), ('list-files', '-h'), ('list-changes', '-h'), ('pull-ignore', '-f', '/b')]
    wc.write('/c', b'local'); behind = True
    for cmd in rng.sample(cmds, 4):
        seen = len(world.server.seen()); before = snapshot(wc.path); meta = wc.meta()
        r = world.cli(wc, *cmd, answers = ['yes' if cmd[0] == 'revert' else 'nothing' if cmd[0] == 'pull-ignore' else 'server'] * 3, before = use)
        what = '%s by a client of version %d (needs a server of at least %d) at a server of version %d (needs clients of at least %d)' % (cmd[0], client['client_version'], client['minimum_server_version'], server['server_version'], least)
        asked = [x[0] for x in world.server.seen()[seen:]]
        if not fits:
            ctx.check(r.kind == 'done' and not r.ok, what + ' is carried out', (r, asked))
            ctx.check(r.exc == 'SystemExit' and (r.msg or '').strip() != '', what + ' does not end with a message', r)
            ctx.check(set(asked) <= {'begin_auth', 'authenticate'}, what + ' goes on after the log-in', asked)
            after = snapshot(wc.path)
            ctx.check(after == before, what + ' changes the working copy', sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
            m = wc.meta()
            ctx.check((m or ('root', {})) == (meta or ('root', {})), what + ' changes the records', (meta, m))
            for x in why: ctx.count(x)
        else:
            if cmd[0] == 'commit' and behind: ctx.check(not r.ok, 'harness: an outdated commit is accepted'); continue
            ctx.check(r.ok, what + ' fails: %r' % r, r.extra.get('tb')); ctx.count('fitting')
            if cmd[0] == 'update': behind = False
            if cmd[0] == 'commit': break
        ctx.check(w.get_head() == hist.head, what + ' creates a revision')
        ctx.evaluated((cmd[0], client['client_version'] - least, server['server_version'] - client['minimum_server_version']))
    # -------------------------------- a checkout
    d = os.path.join(ctx.dir, 'checkouts'); os.makedirs(d)
    r = world.cli(d, 'checkout', 'http://%s:%d/repo' % world.server.addr, answers = ['ann', b64(b'n' + key)], before = use)
    if fits:
        ctx.check(r.ok and os.path.exists(d + '/repo/a'), 'a checkout with fitting versions fails: %r' % r, r.extra.get('tb')); ctx.count('checkouts')
    else:
        ctx.check(not r.ok and r.exc == 'SystemExit' and (r.msg or '').strip() != '', 'a checkout with versions that do not fit does not end with a message', r)
        ctx.check(os.listdir(d) == [], 'a refused checkout leaves something', os.listdir(d)); ctx.count('checkouts_refused')
    ctx.evaluated(('checkout', fits, tuple(why)))
    ctx.sample({'server' : server, 'client' : client})
