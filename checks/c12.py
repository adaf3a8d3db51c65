""" every operation of the real server sent with every kind of bad session, also inside somebody else's commit and on the connection that holds it; replies inspected and the repository compared byte for byte; good sessions used in step with an advanced clock """
import json, os, base64, sqlite3
import pysodium
from vlib.world import World, store_objects
from vlib.wire import Wire, WireError
from vlib import gen
from vlib.hist import simple_commit

LEVEL = 'exploration'
RULE = ('a case has two or three repositories with history, users with different permissions and several addresses, and advances time in steps; at every state each operation (taken from the table of routes of the server, so new ones are included) is sent with several kinds of bad session '
        '(none, forged, damaged, of another repository, of another address, challenge, expired, of a user who lost the right) on fresh connections and on the one that holds the commit, and with good ones. An evaluation is one request with a judged session; distinct by operation, kind of session, state of the repository and connection')
ASSUMPTIONS = ['time is what the server process sees through its C library', 'the session of an interrupted commit which may still be resumed is allowed to outlive two hours', 'idle times between 119 and 121 minutes may be treated either way']
REQUIRED = ['refused', 'accepted', 'on_holder_connection', 'inside_commit', 'expired', 'kept_alive', 'long_upload', 'revoked', 'other_repository', 'alike_names', 'other_address', 'slow_commit', 'not_resumed', 'taken_over']
QUICK_WALL = 20
THOROUGH_WALL = 600

def plan(tier): return 240 if tier == 'quick' else 900

HOUR = 3600
OPS = ['find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files', 'begin_commit', 'push_file', 'delete_files', 'commit', 'abort']

def state(path, override = None):
    """ everything of a repository a request could change: objects, head, commit in progress """
    out = {'objects' : store_objects(path)}
    for n in sorted(os.listdir(path)):
        full = os.path.join(path, n)
        if os.path.isfile(full) and n not in ('manifest_transient.db', 'lock_file') and not n.endswith(('.db', '-journal', '-wal', '-shm')):
            with open(full, 'rb') as f: out[n] = f.read()
    for n in os.listdir(path):
        if n.endswith('.db'):
            con = sqlite3.connect(os.path.join(path, n), timeout = 20)
            tables = [r[0] for r in con.execute("select name from sqlite_master where type = 'table'")]
            # sessions and challenges come and go by themselves
            out[n] = {t : sorted(repr(r) for r in con.execute('select * from ' + t)) for t in tables if 'token' not in t}
            con.close()
    return out

class Session:
    def __init__(self, token, repo, ip, user, used): self.token = token; self.repo = repo; self.ip = ip; self.user = user; self.used = used; self.holds = False; self.gone = False; self.unsure = False

class Case:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = rng = ctx.rng
        second = rng.choice(['second', 'repository', 'rep', 'Repo', 'repo ', 'répo', '*', 'my repo', 'repo/x']) # also names that are alike
        if second != 'second': ctx.count('alike_names')
        self.uses = {'ann' : ['repo', second], 'bob' : ['repo'], 'carol' : [second], 'dave' : ['repo', second]}
        def extra(config):
            for u, r in self.uses.items(): config['users'][u]['uses_repositories'] = list(r)
        self.world = World(ctx, repos = ['repo', second], users = list(self.uses), extra_config = extra)
        self.now = 0
        self.ips = ['127.250.3.%d' % i for i in (1, 2, 12, 20)]
        self.sessions = []
        self.secrets = set(); self.head = {}
        from bversion import server
        self.routes = sorted(getattr(server, 'routes', ()))
        for repo in self.world.store:
            w = self.world.wire(repo, 'ann', '127.250.4.1')
            head = 'root'
            for i in range(rng.choice([1, 2])):
                if repo == second and i == 0 and rng.random() < 0.15: break
                text = gen.unique(rng); name = '/secretname%d' % rng.randrange(10**9)
                h, _ = w.begin(head); w.push(name, text)
                if i: w.delete([self.name[repo]])
                h = w.commit('secretmessage%d' % i)
                ctx.check(h['status'] == 'ok', 'commit is refused', h)
                head = h['head']
                self.secrets |= {name, head, 'secretmessage%d' % i, text.decode('latin1')}
                if not hasattr(self, 'name'): self.name = {}
                self.name[repo] = name
            self.head[repo] = head
            w.close()

    def login(self, user = None, repo = None, ip = None):
        rng = self.rng
        user = user or rng.choice(sorted(self.uses)); repo = repo or rng.choice(self.uses[user]); ip = ip or rng.choice(self.ips)
        w = self.world.wire(repo, user, ip); w.close()
        s = Session(w.session, repo, ip, user, self.now)
        self.sessions.append(s)
        return s

    def advance(self, seconds):
        self.now += seconds; self.world.server.clock(float(self.now))

    def status(self, s):
        """ True usable, False not, None either """
        if s.gone or s.repo not in self.uses.get(s.user, []): return False
        if s.holds is True: return True
        if s.unsure: return None
        idle = self.now - s.used
        if idle < 119 * 60: return True
        if s.holds is None: return None
        if idle > 121 * 60: return False
        return None

    def request(self, w, op, token, repo, headers = None):
        """ sends one operation that would work, or change something """
        rng = self.rng
        name = getattr(self, 'name', {}).get(repo, '/x')
        hd = {'repository' : repo, 'previous_revision' : self.head.get(repo, 'root') if op == 'begin_commit' else 'root', 'include_unchanged' : rng.choice(['0', '1']), 'path' : name if op == 'pull_file' else '/pushed%d' % rng.randrange(9),
              'use_head' : '1', 'show_head' : rng.choice(['0', '1']), 'version_id' : self.head.get(repo, 'root'), 'user' : rng.choice(['', 'ann']), 'commit_message' : 'hostile', 'mode' : 'abort' if op == 'abort' else 'commit'}
        body = {'find_changed' : json.dumps({'client_changes' : '{}'}).encode(), 'push_file' : b'hostile content', 'delete_files' : json.dumps({'files' : json.dumps([{'path' : name}])}).encode()}.get(op, b'{}')
        if token is not None: hd['session_token'] = token
        hd.update(headers or {})
        try: return w.req('commit' if op == 'abort' else op, hd, body)
        except WireError as e:
            self.ctx.check(not e.slow, 'no answer to ' + op)
            w.close(); w.connect()
            return None

    def good(self, s, op = None, w = None):
        own = w is None
        if own: w = Wire(self.world.server.addr, s.ip)
        op = op or self.rng.choice(['find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files'])
        if self.head[s.repo] == 'root' and op in ('pull_file', 'list_changes', 'list_files'): op = 'list_versions'
        r = self.request(w, op, s.token, s.repo, {'show_head' : '1'})
        want = self.status(s)
        ok = r is not None and r[0]['status'] == 'ok'
        if want is True:
            self.ctx.check(ok, 'a live session is refused: ' + op, (s.user, s.repo, self.now - s.used, r and r[0]))
        elif want is False: self.ctx.check(not ok, 'a dead session is accepted: ' + op, (s.user, s.repo, self.now - s.used))
        if ok: s.used = self.now; s.unsure = False; self.ctx.count('accepted')
        else: s.gone = True; self.ctx.count('refused')
        self.ctx.evaluated((op, 'own session', want, ok))
        ctx = self.ctx; ctx.note('own', op, s.user, s.repo, want, ok)
        if own: w.close()
        return ok

    def bad_tokens(self, repo, ip):
        """ [(kind, token, address to send from)]: sessions that do not entitle to this """
        rng = self.rng
        live = [s for s in self.sessions if self.status(s) is True]
        out = [('none', None, ip), ('empty', '', ip), ('random', base64.b64encode(pysodium.randombytes(35)).decode(), ip), ('null', 'None', ip), ('wildcard', rng.choice(['%', '*', "' or 1=1 --", '[]', 'null']), ip)]
        mine = [s for s in live if s.repo == repo and s.ip == ip]
        if mine:
            t = rng.choice(mine).token
            for kind, bad in (('damaged', t[:5] + ('A' if t[5] != 'A' else 'B') + t[6:]), ('shortened', t[:-1]), ('lengthened', t + 'A'), ('case', t.swapcase()), ('decoded', base64.b64decode(t).hex())):
                if not any(s.token == bad for s in self.sessions): out.append((kind, bad, ip))
        for kind, pool in (('other repository', [s for s in live if s.repo != repo and s.ip == ip]),
                           ('other address', [s for s in live if s.repo == repo and s.ip != ip]),
                           ('expired', [s for s in self.sessions if s.repo == repo and self.now - s.used > 121 * 60 and s.holds is False and not s.unsure]),
                           ('revoked', [s for s in self.sessions if s.repo == repo and repo not in self.uses.get(s.user, [])])):
            if pool:
                s = rng.choice(pool)
                out.append((kind, s.token, ip if kind == 'other address' else s.ip))
        w = Wire(self.world.server.addr, ip); h = w.begin_auth(repo); w.close()
        out.append(('challenge', h['auth_token'], ip))
        return out

    def attack(self, where, n, holder = None):
        """ sends operations with bad sessions; holder: the connection and session of the commit in progress """
        ctx = self.ctx; rng = self.rng
        before = {r : state(p) for r, p in self.world.store.items()}
        sent = []
        for _ in range(n):
            repo = rng.choice(list(self.world.store)) if holder is None else holder[1].repo
            ip = rng.choice(self.ips) if holder is None else holder[1].ip
            kinds = self.bad_tokens(repo, ip)
            kind, token, src = rng.choice(kinds)
            on_holder = holder is not None and src == ip and rng.random() < 0.6
            known = set(OPS) | {'begin_auth', 'authenticate', 'abort'}
            op = rng.choice(OPS + [r for r in self.routes if r not in known] + ['authenticate'])
            ctx.note('bad', where, op, kind, on_holder, token, src, repo)
            w = holder[0] if on_holder else Wire(self.world.server.addr, src).connect()
            r = self.request(w, op, token, repo) if op != 'authenticate' else self.resume(w, token, repo)
            if on_holder and r is None: # a malformed request may end the connection, and with it the commit
                return False
            if not on_holder: w.close()
            if op == 'authenticate' and kind in ('none', 'revoked'): continue # the latter gets back its own token, which is of no use
            ok = r is not None and r[0]['status'] == 'ok'
            ctx.check(not ok, '%s works with a session that does not entitle to it: %s' % (op, kind), (where, repo, on_holder))
            if r is not None:
                text = json.dumps(r[0]) + r[1].decode('latin1')
                ctx.check(r[1] == b'' and not any(x in text for x in self.secrets), 'a refusal reveals something of the repository', (op, kind, r))
            ctx.count('refused'); sent.append((op, kind))
            if on_holder: ctx.count('on_holder_connection')
            if holder is not None: ctx.count('inside_commit')
            if kind == 'expired': ctx.count('expired')
            if kind == 'revoked': ctx.count('revoked')
            if kind == 'other repository': ctx.count('other_repository')
            if kind == 'other address': ctx.count('other_address')
            ctx.evaluated((op, kind, where, on_holder))
        after = {r : state(p) for r, p in self.world.store.items()}
        if before != after:
            diff = [(r, k) for r in before for k in set(before[r]) | set(after[r]) if before[r].get(k) != after[r].get(k)]
            ctx.check(False, 'requests without a session changed a repository', (diff, sent))
        return True

    def resume(self, w, token, repo):
        hd = {'client_version' : '3', 'repository' : repo}
        if token is not None: hd['session_token'] = token
        try: return w.req('authenticate', hd, b'{}')
        except WireError as e:
            self.ctx.check(not e.slow, 'no answer to authenticate')
            w.close(); w.connect()
            return None

def commit_in_progress(c):
    """ a commit during which time passes, others log in, and requests with bad sessions arrive """
    ctx = c.ctx; rng = c.rng
    s = c.login('dave' if rng.random() < 0.5 and 'dave' in c.uses else 'ann', ip = rng.choice(c.ips))
    if rng.random() < 0.35:
        # it was begun with another session, from which it is taken over
        t = c.login(s.user, s.repo, s.ip)
        w = Wire(c.world.server.addr, t.ip); w.session = t.token; w.repo = t.repo
        h, partial = w.begin(c.head[s.repo])
        ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
        ctx.check(w.push('/begun%d' % rng.randrange(9), gen.unique(rng))['status'] == 'ok', 'push_file is refused')
        w.close(); c.world.wait_unlocked(s.repo); ctx.count('taken_over')
    w = Wire(c.world.server.addr, s.ip); w.session = s.token; w.repo = s.repo
    h, partial = w.begin(c.head[s.repo])
    ctx.check(h['status'] == 'ok', 'begin_commit is refused', h)
    for p in partial or []: ctx.check(w.delete([p['path']])['status'] == 'ok', 'delete is refused')
    s.holds = True; s.used = c.now
    files = {}
    alive = True
    for i in range(rng.choice([1, 2, 4])):
        if rng.random() < 0.5:
            c.advance(rng.choice([60, HOUR, 3 * HOUR, 50 * HOUR])); ctx.count('slow_commit')
            if rng.random() < 0.6: c.login() # which removes what is expired
            for x in rng.sample(c.sessions, min(2, len(c.sessions))):
                if x is not s: c.good(x)
        if rng.random() < 0.7:
            alive = c.attack('inside', rng.choice([2, 5]), (w, s))
            if not alive: break
        name = '/new%d' % i; data = gen.unique(rng)
        if rng.random() < 0.3:
            # one upload that takes longer than a session lives
            c_before = c.now
            body = data * 40
            w.send_raw(w.preamble('push_file', w.base(path = name), len(body)) + body[:len(body) // 2])
            c.advance(rng.choice([3 * HOUR, 30 * HOUR]))
            c.login()
            for x in rng.sample(c.sessions, min(2, len(c.sessions))):
                if x is not s: c.good(x)
            w.send_raw(body[len(body) // 2:])
            h = w.read_reply()[0]
            data = body; ctx.count('long_upload')
            s.unsure = True # the request was judged when it began
        else:
            h = w.push(name, data); s.unsure = False
        ctx.check(h['status'] == 'ok', 'the session of the commit in progress is refused', (h, c.now - s.used))
        s.used = c.now
        files[name] = data
        ctx.evaluated(('push_file', 'holder', 'inside', c.now > 0))
    if alive:
        h = w.commit('done')
        ctx.check(h['status'] == 'ok', 'the session of the commit in progress is refused', h)
        c.head[s.repo] = h['head']; c.secrets.add(h['head'])
        s.holds = False; s.used = c.now; s.unsure = False
        listed = w.list_files()
        ctx.check(listed is not None and all(p in listed for p in files), 'a commit during which others sent requests without session lost files')
        for p, d in files.items(): ctx.check(w.pull(p)[1] == d, 'a commit during which others sent requests without session lost data')
        ctx.check(not any(p.startswith('/pushed') for p in listed), 'a file pushed without a session was committed')
        c.name[s.repo] = next(iter(files))
    else:
        s.holds = None
    w.close(); c.world.wait_unlocked(s.repo)
    if s.holds is None:
        # cancel what is left, so that nothing keeps this session
        x = c.login('ann', s.repo, ip = '127.250.3.9')
        w = Wire(c.world.server.addr, x.ip); w.session = x.token; w.repo = x.repo
        h, partial = w.begin(c.head[s.repo]); w.abort(); w.close()
        c.world.wait_unlocked(s.repo); s.holds = False; x.used = c.now

def case(ctx):
    rng = ctx.rng
    c = Case(ctx)
    for _ in range(5): c.login()
    for _ in range(4 if ctx.quick else 10):
        what = rng.choice(['attack', 'attack', 'commit', 'use', 'idle', 'revoke', 'interrupted'])
        if what == 'attack': c.attack('at rest', 12)
        elif what == 'commit': commit_in_progress(c)
        elif what == 'use':
            # a session in regular use lives as long as it is used
            s = c.login()
            for _ in range(rng.choice([2, 4])):
                c.advance(rng.choice([60, HOUR, 118 * 60]))
                if rng.random() < 0.5: c.login()
                c.good(s); ctx.count('kept_alive')
        elif what == 'idle':
            for _ in range(2): c.login()
            c.advance(rng.choice([HOUR, 2 * HOUR + 120, 5 * HOUR]))
            if rng.random() < 0.5: c.login()
            for s in rng.sample(c.sessions, min(4, len(c.sessions))):
                if rng.random() < 0.4 and c.status(s) is False:
                    w = Wire(c.world.server.addr, s.ip)
                    r = c.resume(w, s.token, s.repo)
                    if c.now - s.used > 121 * 60:
                        ctx.check(r is None or r[0]['status'] != 'ok', 'a dead session is taken up again')
                        ctx.count('not_resumed')
                    w.close()
                c.good(s)
        elif what == 'revoke':
            user = rng.choice(['ann', 'dave', 'bob'])
            if not c.uses.get(user) or user == 'ann' and rng.random() < 0.7: continue
            for r in c.uses[user]: c.login(user, r)
            lost = rng.choice(c.uses[user])
            c.uses[user] = [r for r in c.uses[user] if r != lost]
            c.world.server.config['users'][user]['uses_repositories'] = list(c.uses[user])
            gone = not c.uses[user] and rng.random() < 0.5
            if gone: del c.world.server.config['users'][user]; c.world.keys.pop(user)
            if not c.uses[user]: del c.uses[user]
            c.world.server.restart(); c.world.server.clock(float(c.now))
            for s in c.sessions:
                if s.user == user: c.good(s)
            c.attack('after revoking', 6)
            if 'ann' not in c.uses or len(c.uses['ann']) < 2: return
        elif what == 'interrupted':
            s = c.login('ann')
            w = Wire(c.world.server.addr, s.ip); w.session = s.token; w.repo = s.repo
            h, p = w.begin(c.head[s.repo])
            if h['status'] == 'ok': w.push('/interrupted', gen.unique(rng))
            w.close(); c.world.wait_unlocked(s.repo)
            s.holds = None; s.used = c.now
            c.advance(rng.choice([0, 3 * HOUR]))
            c.attack('interrupted', 6)
            x = c.login('ann', s.repo, ip = '127.250.3.9')
            w = Wire(c.world.server.addr, x.ip); w.session = x.token; w.repo = x.repo
            h, p = w.begin(c.head[s.repo]); w.abort(); w.close(); c.world.wait_unlocked(s.repo)
            x.used = c.now; s.holds = False
            c.good(s) if c.status(s) is not False or c.now - s.used > 0 else None
    c.attack('at rest', 10)
    ctx.sample({'sessions' : len(c.sessions), 'hours' : c.now // HOUR, 'routes' : len(c.routes)})
