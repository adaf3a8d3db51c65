""" log-in attempts of honest and hostile clients at the real server, every grant and refusal compared with an independent record of the challenges; simultaneous redemption with injected delays; every granted session is tried """
import base64, json, threading, time
import pysodium
from vlib.core import Inconclusive
from vlib.world import World, keypair, b64
from vlib.wire import Wire, WireError
from vlib import gen

LEVEL = 'exploration'
RULE = ('a case sends some dozens of challenge requests and redemptions, each made right and then, mostly, spoilt in one respect (signature, key, user, repository, address, age, replay, version, malformed or missing fields), over users with different permissions, '
        'repositories, addresses and times, and redeems challenges by many connections at once; grants and refusals are compared with the record of the challenges. An evaluation is one redemption; distinct by what was spoilt, user, permission, and outcome')
ASSUMPTIONS = ['time is what the server process sees through its C library', 'a challenge of an age between 28 and 32 seconds may be treated either way']
REQUIRED = ['granted', 'refused', 'races', 'expired', 'replayed', 'late_but_valid', 'real_client_in', 'real_client_out', 'session_tried', 'after_restart']
QUICK_WALL = 20
THOROUGH_WALL = 600

def plan(tier): return 60 if tier == 'quick' else 900

USERS = ['ann', 'bob', 'carol', 'dave']
USES = {'ann' : ['repo', 'other repo'], 'bob' : ['repo'], 'carol' : [], 'dave' : ['other repo']}

class Challenge:
    def __init__(self, token, repo, ip, time): self.token = token; self.repo = repo; self.ip = ip; self.time = time; self.used = False; self.tried = False

class Login:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = ctx.rng
        def extra(config):
            for u in USERS: config['users'][u]['uses_repositories'] = list(USES[u])
            config['users']['broken key'] = {'public_key' : 'bm90IGEga2V5', 'uses_repositories' : ['repo']}
            config['users']['no key'] = {'public_key' : '', 'uses_repositories' : ['repo']}
        self.world = World(ctx, repos = ['repo', 'other repo'], users = USERS, watch_server = True, extra_config = extra)
        self.stranger = keypair('stranger')[1]
        self.now = 0
        self.challenges = []
        self.tokens = set(); self.sessions = set()
        self.ips = ['127.250.1.%d' % i for i in (1, 2, 12, 20)]

    def conn(self, ip): return Wire(self.world.server.addr, ip)

    def challenge(self, repo = None, ip = None, w = None):
        repo = repo or self.rng.choice(USES['ann']); ip = ip or self.rng.choice(self.ips)
        own = w is None
        if own: w = self.conn(ip)
        h = w.begin_auth(repo)
        if own: w.close()
        self.ctx.check(h['status'] == 'ok', 'a challenge is refused', h)
        t = h['auth_token']
        self.ctx.check(t not in self.tokens, 'a challenge is issued twice', t)
        self.ctx.check(len(t) >= 22, 'a challenge is short', t)
        self.tokens.add(t)
        c = Challenge(t, repo, ip, self.now)
        self.challenges.append(c)
        return c

    def session_ok(self, h, repo, ip, user):
        """ the session that was granted works, there and only there """
        ctx = self.ctx
        s = h.get('session_token')
        ctx.check(s and s not in self.sessions and len(s) >= 22, 'a session token is missing, short or not new', s)
        self.sessions.add(s)
        w = self.conn(ip); w.session = s; w.repo = repo
        ctx.check(w.list_versions() is not None, 'the session that was granted does not work', (repo, ip, user))
        if self.rng.random() < 0.15:
            h, _ = w.begin(w.get_head())
            ctx.check(h['status'] == 'ok', 'a new session can not commit', h)
            w.push('/by', gen.unique(self.rng)); h = w.commit('x')
            ctx.check(h['status'] == 'ok', 'a new session can not commit', h)
            v = w.list_versions()
            ctx.check(v and v[0]['id'] == h['head'] and v[0]['commit_by'] == user, 'the session belongs to somebody else', (user, v[:1]))
        w.close()
        other = [x for x in USES['ann'] if x != repo][0]
        w = self.conn(ip); w.session = s; w.repo = other
        ctx.check(w.list_versions() is None, 'the session works for another repository', (repo, other))
        w.close()
        w = self.conn([x for x in self.ips if x != ip][0]); w.session = s; w.repo = repo
        ctx.check(w.list_versions() is None, 'the session works from another address', (repo, ip))
        w.close()
        ctx.count('session_tried')

    def attempt(self, c, user, repo, ip, key, how, sig = None, headers = None, drop = ()):
        """ one redemption. returns the reply, None if the connection broke """
        w = self.conn(ip)
        if sig is None: sig = Wire.sign(key, c.token) if key is not None else b''
        hd = {'client_version' : '3', 'auth_token' : c.token, 'signature' : sig, 'user' : user, 'repository' : repo}
        hd.update(headers or {})
        for d in drop: hd.pop(d)
        try: h = w.req('authenticate', hd, b'{}')[0]
        except WireError as e:
            self.ctx.check(not e.slow, 'no answer to a log in', how)
            h = None
        w.close()
        return h

    def judge(self, how, h, granted, repo, ip, user):
        """ granted: True must, False must not, None either """
        ctx = self.ctx
        ok = h is not None and h.get('status') == 'ok'
        if granted is True: ctx.check(ok, 'a genuine log in is refused (%s)' % how, (user, repo, ip, h))
        if granted is False:
            ctx.check(not ok, 'a session is opened although: ' + how, (user, repo, ip))
            ctx.check(h is None or not (set(h) & {'session_token'}), 'a refusal carries a session', h)
        ctx.count('granted' if ok else 'refused')
        ctx.evaluated((how, user, repo in USES.get(user, []), granted, ok))
        if ok: self.session_ok(h, repo, ip, user)
        return ok

def probe(s):
    """ which way of signing this server understands """
    w = s.conn(s.ips[0])
    s.ctx.check(w.login('repo', 'ann', s.world.keys['ann'][1]), 'a genuine log in is refused')
    w.close()

def spoilt(s, rng):
    """ a right attempt, spoilt in one respect: (description, function that sends it) """
    user = rng.choice(['ann', 'ann', 'bob', 'dave'])
    repo = rng.choice(USES[user]); ip = rng.choice(s.ips)
    key = s.world.keys[user][1]
    how = rng.choice(['nothing', 'nothing', 'key', 'user', 'permission', 'repository', 'address', 'age', 'age', 'replay', 'signature', 'signature', 'other challenge signed', 'forged challenge', 'version', 'missing', 'unknown user',
                      'unknown repository', 'stranger', 'hostile value', 'broken key', 'session as challenge', 'unsigned'])
    ctx = s.ctx
    other_user = rng.choice([u for u in USERS if u != user])
    other_repo = [x for x in USES['ann'] if x != repo][0]
    other_ip = rng.choice([x for x in s.ips if x != ip])
    c = s.challenge(repo, ip)
    must = False
    kw = {}
    a = dict(c = c, user = user, repo = repo, ip = ip, key = key)
    if how == 'nothing': must = True
    elif how == 'key': a['key'] = s.world.keys[other_user][1]
    elif how == 'stranger': a['key'] = s.stranger
    elif how == 'user': a['user'] = other_user
    elif how == 'permission':
        user = rng.choice(['bob', 'carol', 'dave']); repo = rng.choice([r for r in USES['ann'] if r not in USES[user]])
        a = dict(c = s.challenge(repo, ip), user = user, repo = repo, ip = ip, key = s.world.keys[user][1])
    elif how == 'repository':
        a['user'] = 'ann'; a['key'] = s.world.keys['ann'][1]; a['repo'] = other_repo
    elif how == 'address': a['ip'] = other_ip
    elif how == 'age':
        passed = rng.choice([1, 10, 20, 27, 33, 40, 60, 3600, 86400])
        s.now += passed; s.world.server.clock(float(s.now))
        must = passed < 28
        if not must: ctx.count('expired')
        elif passed > 1: ctx.count('late_but_valid')
        # other logins happen in the meantime
        if rng.random() < 0.4: s.challenge(repo, rng.choice(s.ips))
        how = 'aged %s' % ('a little' if must else 'too much')
    elif how == 'replay':
        h = s.attempt(c, user, repo, ip, key, 'first')
        s.judge('nothing', h, True, repo, ip, user)
        sig = Wire.sign(key, c.token)
        if rng.random() < 0.3:
            s.now += rng.choice([1, 29, 31]); s.world.server.clock(float(s.now))
        ctx.count('replayed')
        kw['sig'] = sig
        if rng.random() < 0.3: a['ip'] = other_ip
    elif how == 'signature':
        sig = base64.b64decode(Wire.sign(key, c.token))
        i = rng.randrange(64)
        kw['sig'] = rng.choice([base64.b64encode(sig[:i] + bytes([sig[i] ^ (1 << rng.randrange(8))]) + sig[i + 1:]), base64.b64encode(sig[:i]), base64.b64encode(sig + b'\0'), b'', b'=', b'!!!', b'AAAA',
                                base64.b64encode(b'\0' * 64), base64.b64encode(b'\xff' * 64), base64.b64encode(bytes([1] + [0] * 63)), base64.b64encode(sig[32:] + sig[:32])])
    elif how == 'unsigned': kw['sig'] = base64.b64encode(c.token.encode())
    elif how == 'other challenge signed':
        kw['sig'] = Wire.sign(key, s.challenge(repo, ip).token)
    elif how == 'forged challenge':
        t = list(c.token); i = rng.randrange(len(t) - 3)
        forged = rng.choice([base64.b64encode(pysodium.randombytes(35)).decode(), c.token[:-1], c.token + 'x', c.token.swapcase(), '', '%', '*', "' or '1'='1", c.token.replace(t[i], '_')])
        if forged == c.token: forged = 'x'
        a['c'] = Challenge(forged, repo, ip, s.now)
    elif how == 'version':
        kw['headers'] = {'client_version' : rng.choice(['0', '-1', '', 'x', '1e9', 'None'])}
        if kw['headers']['client_version'] in ('0', '-1'): pass
    elif how == 'missing': kw['drop'] = [rng.choice(['client_version', 'auth_token', 'signature', 'user', 'repository'])]
    elif how == 'unknown user': a['user'] = rng.choice(['nobody', '', 'ANN', 'Ann', 'ann ', ' ann', 'ann\t', 'ann,bob', 'users'])
    elif how == 'unknown repository': a['repo'] = rng.choice(['nowhere', '', 'REPO', 'repo/', '/repo', './repo', 'repo\t', '../repo'])
    elif how == 'hostile value':
        k = rng.choice(['auth_token', 'user', 'repository', 'signature'])
        kw['headers'] = {k : rng.choice(['\x00', 'x' * 50000, "'; drop table tokens; --", '%s', '{}', '[]', '../' * 5, 'é', '\udcff'.encode('utf8', 'surrogateescape'), '0', 'null'])}
    elif how == 'broken key':
        a['user'] = rng.choice(['broken key', 'no key']); a['repo'] = 'repo'; a['c'] = s.challenge('repo', ip)
        if rng.random() < 0.5: kw['sig'] = rng.choice([b'', base64.b64encode(b'\0' * 64)])
    elif how == 'session as challenge':
        w = s.conn(ip); w.login(repo, user, key)
        a['c'] = Challenge(w.session, repo, ip, s.now); w.close()
    # trailing blanks of header values are not significant to everybody: such a value may be read as the right one
    if how in ('unknown user', 'unknown repository') and (a['user'].strip() == user or a['repo'].strip() == repo) and not (a['user'] == '' or a['repo'] == ''):
        x = a['user'] if how == 'unknown user' else a['repo']
        if x != x.strip(): must = None
    return how, a, kw, must

def race(s, rng):
    """ one challenge redeemed by many at once """
    ctx = s.ctx
    user = rng.choice(['ann', 'bob', 'dave']); repo = rng.choice(USES[user]); ip = rng.choice(s.ips)
    n = rng.choice([2, 3, 5, 8])
    cs = [s.challenge(repo, ip) for _ in range(rng.choice([1, 1, 2]))]
    s.world.server.set_delay(rng.choice([0, 300, 3000]), rng.choice([20, 60, 100]), rng.randrange(1 << 30))
    wires = []
    for c in cs:
        for _ in range(n):
            w = s.conn(ip).connect(); wires.append((w, c))
    barrier = threading.Barrier(len(wires))
    out = [None] * len(wires)
    def go(i, w, c):
        sig = Wire.sign(s.world.keys[user][1], c.token)
        barrier.wait()
        try: out[i] = w.redeem(repo, user, c.token, sig)
        except WireError as e: out[i] = {'status' : 'slow' if e.slow else 'broken'}
    ts = [threading.Thread(target = go, args = (i, w, c)) for i, (w, c) in enumerate(wires)]
    for t in ts: t.start()
    for t in ts: t.join()
    s.world.server.set_delay(0, 0, 0)
    for c in cs:
        got = [h for h, (_, cc) in zip(out, wires) if cc is c and h['status'] == 'ok']
        ctx.check(len(got) <= 1, 'one challenge opened %d sessions' % len(got), (n, user, repo))
        if any(h['status'] == 'slow' for h in out): raise Inconclusive('no answer within the time')
        ctx.check(len(got) == 1, 'a genuine log in is refused (redeemed several times at once)', [h for h in out])
        s.session_ok(got[0], repo, ip, user)
        ctx.evaluated(('race', n, len(cs), user))
    for w, _ in wires: w.close()
    ctx.count('races')

def case(ctx):
    rng = ctx.rng
    s = Login(ctx)
    probe(s)
    for _ in range(16 if ctx.quick else 40):
        how, a, kw, must = spoilt(s, rng)
        ctx.note(how, a['user'], a['repo'], a['ip'], kw, must)
        h = s.attempt(a['c'], a['user'], a['repo'], a['ip'], a['key'], how, **kw)
        s.judge(how, h, must, a['repo'], a['ip'], a['user'])
        # whoever tried that from elsewhere does not keep the owner of the challenge from using it
        if how in ('address', 'stranger') and not must and rng.random() < 0.5:
            c = a['c']; user = a['user']
            if how == 'address':
                h = s.attempt(c, user, c.repo, c.ip, s.world.keys[user][1], 'owner after stranger')
                s.judge('owner after stranger', h, True, c.repo, c.ip, user)
        if rng.random() < 0.15:
            race(s, rng)
        if rng.random() < 0.04:
            s.world.server.restart()
            s.world.server.clock(float(s.now))
            c = s.challenge()
            user = rng.choice([u for u in USERS if c.repo in USES[u]])
            s.judge('after restart', s.attempt(c, user, c.repo, c.ip, s.world.keys[user][1], 'restart'), True, c.repo, c.ip, user)
            ctx.count('after_restart')
    race(s, rng)
    # the real client, with its own key and with that of another
    user = rng.choice(['ann', 'bob'])
    wc = s.world.new_wc('wc', user, 'repo')
    w = s.world.wire('repo', 'ann', '127.250.2.9')
    head = w.get_head(); h, _ = w.begin(head)
    ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
    secret = gen.unique(rng)
    w.push('/secret', secret); w.commit('m'); w.close()
    conf = wc.config(); good = conf['private_key']
    for bad in [b64(b'n' + s.stranger), b64(b'n' + s.world.keys['carol'][1])]:
        conf['private_key'] = bad
        with open(wc.path + '/.bvn/client_configuration.json', 'w') as f: json.dump(conf, f)
        r = s.world.cli(wc, 'update', src = '127.250.2.%d' % rng.randrange(1, 9))
        ctx.check(r.kind == 'done' and wc.tree() == {}, 'a client with a wrong key gets files', repr(r))
        ctx.count('real_client_out')
        ctx.evaluated(('client', 'wrong key', user))
    conf['private_key'] = good
    with open(wc.path + '/.bvn/client_configuration.json', 'w') as f: json.dump(conf, f)
    r = s.world.cli(wc, 'update', src = '127.250.2.%d' % rng.randrange(1, 9))
    ctx.check(r.ok and wc.tree().get('/secret') == secret, 'a client with the right key can not update', repr(r) + r.out[-500:])
    ctx.count('real_client_in')
    ctx.evaluated(('client', 'right key', user))
    ctx.sample({'challenges' : len(s.challenges), 'sessions' : len(s.sessions)})
