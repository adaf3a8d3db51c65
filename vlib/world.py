""" The system under observation: a real server process (HTTPServer + server.endpoint on a loopback
address), real client processes (client.run() with command line arguments), all below a scratch
directory, with fault injection and observation through the shim and through the handler passed to
HTTPServer. """
import os, sys, json, time, io, signal, socket, base64, builtins, threading, pickle, select, traceback, struct, sqlite3, tempfile, shutil, hashlib
import pysodium
from vlib import core
from vlib.core import lib, send_msg, recv_msg, Violation
from vlib.wire import Wire, WireError, sha

def keypair(seed):
    pk, sk = pysodium.crypto_sign_seed_keypair(hashlib.sha256(repr(seed).encode()).digest())
    return pk, sk

def b64(b): return base64.b64encode(b).decode()

def address(ctx):
    ppid, i = ctx.slot
    return ('127.%d.%d.%d' % (1 + (i // 48000) % 100, (i // 200) % 240, 1 + i % 200), 20000 + (os.getppid() * 0 + _main_pid()) % 20000)

def _main_pid():
    # the process group leader above the workers; workers share the pid of the run through this
    return int(os.environ.get('VERIF_RUN_PID', '0'))

# ============================================================================= server
class Server:
    """ A server process. rules (evaluated in the server for every request, in order of arrival):
        list of dicts {'n': request number or None, 'action': 'push_file' or None, 'nth': k-th request of that action,
                       'do': 'fail'|'drop'|'drop_after'|'call'|'call_after'|'hold'|'cut'|'kill'|'fail_after', ...} """
    def __init__(self, ctx, config, addr = None, name = 'server', watch = (), clock = 0.0):
        self.ctx = ctx; self.config = config; self.addr = addr or address(ctx)
        self.name = name; self.pid = None; self.watch = list(watch); self.on_event = None
        self.clock_shift = clock; self.delay = (0, 0, 0); self.before = None # called in the server process when it is ready
        self.log_path = os.path.join(ctx.dir, name + '.log')
        self.requests = 0; self.pause_reads = False

    # ------------------------------------------------ life cycle
    def start(self, arm = None):
        assert self.pid is None
        a, b = socket.socketpair()      # control: parent asks, server answers
        c, d = socket.socketpair()      # events:  server asks, parent answers
        self.pause = core.Pause(lambda: None, reads = self.pause_reads)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                core.pdeathsig()
                a.close(); c.close()
                self._run(b, d, arm)
            except BaseException: # pylint: disable=broad-except
                traceback.print_exc()
            finally: os._exit(0)
        b.close(); d.close()
        self.pid = pid; self.ctl = a; self.ev = c
        self.armed = arm[1] if arm else 0
        try:
            ok = recv_msg(a.fileno())
        except (EOFError, OSError):
            self._reap(); return False
        if ok != 'ready':
            self._reap(); raise core.Inconclusive('server did not start: ' + repr(ok))
        return True

    def _reap(self):
        if self.pid is None: return None
        try: os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        _, st = os.waitpid(self.pid, 0)
        self.pid = None
        self.ctl.close(); self.ev.close(); self.pause.close()
        return st

    def kill(self): return self._reap()

    def restart(self, **kw):
        self._reap()
        return self.start(**kw)

    def alive(self):
        """ settles whether an injected kill happened before answering """
        if self.pid is None: return False
        r = self.ask('count')
        if r is not None and not (r[1] and self.armed in (core.KILL, core.HALF_KILL)): return True
        os.waitpid(self.pid, 0)
        self.pid = None; self.ctl.close(); self.ev.close(); self.pause.close()
        return False

    # ------------------------------------------------ control
    def ask(self, *msg):
        """ None if the server is dead """
        try:
            send_msg(self.ctl.fileno(), msg)
            return recv_msg(self.ctl.fileno())
        except (EOFError, OSError):
            return None

    def rules(self, rules): return self.ask('rules', rules)
    def arm(self, k, action, err = 0):
        self.armed = action if k >= 0 else 0
        return self.ask('arm', k, action, err)
    def disarm(self): return self.arm(-1, 0, 0)
    def opcount(self): return self.ask('count')
    def clock(self, shift):
        self.clock_shift = shift
        return self.ask('clock', shift)
    def set_delay(self, max_us, pct, seed):
        self.delay = (max_us, pct, seed)
        return self.ask('delay', max_us, pct, seed)
    def seen(self): return self.ask('seen')
    def release(self): return self.ask('release')

    def service(self):
        """ for fork_call: answers questions of the handler while a client is running """
        def cb(fd):
            try: msg = recv_msg(fd)
            except (EOFError, OSError): return False
            out = None
            if self.on_event is not None:
                out = self.on_event(msg)
            try: send_msg(fd, out)
            except OSError: return False
            return True
        return (self.ev.fileno(), cb)

    # ------------------------------------------------ the server process
    def _run(self, ctl, ev, arm):
        log = os.open(self.log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(log, 2)
        devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 1)
        sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), 'wb'), write_through = True)
        sys.stderr = io.TextIOWrapper(os.fdopen(os.dup(2), 'wb'), write_through = True)

        lib.sh_reset()
        for w in self.watch: lib.sh_watch(os.path.realpath(w).encode())
        lib.sh_clock(self.clock_shift)
        if self.delay[0]: lib.sh_delay(*self.delay)
        if arm is not None: lib.sh_arm(*arm)
        self.pause.enter()
        lib.sh_active(1)

        from bversion import server
        from bversion.http.http_server import HTTPServer, Responce, ServeFile
        server.init_server(json.loads(json.dumps(self.config)))

        if self.before is not None: self.before()

        state = {'rules' : [], 'n' : 0, 'per' : {}, 'seen' : [], 'hold' : threading.Event()}
        lock = threading.Lock(); evlock = threading.Lock()

        def event(*msg):
            with evlock:
                send_msg(ev.fileno(), msg)
                return recv_msg(ev.fileno())

        def handler(request, context):
            action = request.uri.split('/')[1]
            with lock:
                n = state['n']; state['n'] += 1
                nth = state['per'].get(action, 0); state['per'][action] = nth + 1
                rule = None
                for r in state['rules']:
                    if r.get('n') is not None and r['n'] != n: continue
                    if r.get('action') is not None and r['action'] != action: continue
                    if r.get('nth') is not None and r['nth'] != nth: continue
                    if r.get('path') is not None and r['path'] != request.headers.get('path'): continue
                    rule = r; break
                state['seen'].append((action, request.headers.get('path'), rule['do'] if rule else None))
            do = rule['do'] if rule else None
            if do == 'fail': return Responce({'status' : 'fail', 'msg' : rule.get('msg', 'injected failure')}, b'')
            if do == 'drop': raise Exception('injected: dropped before')
            if do == 'kill': os.kill(os.getpid(), signal.SIGKILL)
            if do == 'call': event('call', action, request.headers.get('path'), rule.get('tag'))
            if do == 'hold': state['hold'].wait(60)
            if do == 'hold_event':
                event('held', action, rule.get('tag')); state['hold'].wait(60)
            result = server.endpoint(request, context)
            if do == 'drop_after': raise Exception('injected: dropped after')
            if do == 'call_after': event('call_after', action, request.headers.get('path'), rule.get('tag'))
            if do == 'kill_after': os.kill(os.getpid(), signal.SIGKILL)
            if do == 'fail_after': return Responce({'status' : 'fail', 'msg' : 'injected failure'}, b'')
            if do == 'cut': lib.sh_cut(rule['bytes'])
            if do == 'garble': return Responce({'status' : 'ok'}, b'{"garbage": ')
            return result

        def control():
            while True:
                try: msg = recv_msg(ctl.fileno())
                except (EOFError, OSError): os._exit(0)
                op = msg[0]; out = True
                if op == 'rules':
                    with lock: state.update(rules = msg[1], n = 0, per = {}, seen = [], hold = threading.Event())
                    lib.sh_cut(-1)
                elif op == 'arm': lib.sh_arm(msg[1], msg[2], msg[3])
                elif op == 'count': out = (lib.sh_count(), lib.sh_fired())
                elif op == 'clock': lib.sh_clock(msg[1])
                elif op == 'delay': lib.sh_delay(msg[1], msg[2], msg[3])
                elif op == 'caps': lib.sh_caps(msg[1], msg[2], msg[3])
                elif op == 'only': lib.sh_only(msg[1]); lib.sh_only_path(os.fsencode(msg[2]))
                elif op == 'patience': lib.sh_patience(msg[1])
                elif op == 'log': lib.sh_log(os.open(msg[1], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600) if msg[1] else -1)
                elif op == 'seen':
                    with lock: out = list(state['seen'])
                elif op == 'release': state['hold'].set()
                elif op == 'threads': out = len(sys._current_frames())
                elif op == 'fds': out = len(os.listdir('/proc/self/fd'))
                elif op == 'ops': out = {lib.sh_opname(i).decode() : lib.sh_opcount(i) for i in range(14)}
                send_msg(ctl.fileno(), out)

        # HTTPServer announces that it is listening by printing, but connecting may only start then
        host, port = self.addr
        def ready():
            for _ in range(6000):
                try:
                    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                    s.connect((host, port)); s.close(); break
                except OSError: time.sleep(0.002)
            send_msg(ctl.fileno(), 'ready')
            control()
        threading.excepthook = lambda a: print('thread:', repr(a.exc_value), file = sys.stderr)
        t = threading.Thread(target = ready, daemon = True); t.start()
        HTTPServer(host, port, handler)

# ============================================================================= clients
def ordinary_user():
    """ for before=: root keeps owning its files, but has to obey their permissions like anyone else """
    import ctypes
    libc = ctypes.CDLL(None, use_errno = True)
    header = (ctypes.c_uint32 * 2)(0x20080522, 0)
    data = (ctypes.c_uint32 * 6)()
    if libc.capget(header, data): raise core.Inconclusive('capget: ' + os.strerror(ctypes.get_errno()))
    for i in (0, 1): data[i] &= ~((1 << 1) | (1 << 2)) & 0xffffffff # CAP_DAC_OVERRIDE and CAP_DAC_READ_SEARCH, effective and permitted
    header = (ctypes.c_uint32 * 2)(0x20080522, 0)
    if libc.capset(header, data): raise core.Inconclusive('capset: ' + os.strerror(ctypes.get_errno()))

class Result:
    """ outcome of one command """
    def __init__(self, kind, exc = None, msg = '', out = '', extra = None):
        self.kind = kind      # 'done' | 'killed' | 'hang'
        self.exc = exc; self.msg = msg; self.out = out; self.extra = extra or {}
    ok = property(lambda s: s.kind == 'done' and s.exc is None)
    def __repr__(self): return '<%s %s %s>' % (self.kind, self.exc or 'ok', (self.msg or '')[:120])

def _client_process(wc, args, answers, passwords, src, arm, watch, clock, excluded, before, sub, asked_hook = None, pause = None):
    """ runs in a forked child """
    os.chdir(os.path.join(wc, sub) if sub else wc)
    sys.argv = ['bvn'] + list(args)
    out = io.StringIO()
    asked = []
    answers = list(answers or [])
    def fake_input(prompt = ''):
        asked.append(prompt)
        if asked_hook is not None: asked_hook(len(asked), out.getvalue())
        if not answers: raise EOFError('no more answers')
        return answers.pop(0)
    builtins.input = fake_input
    pw = list(passwords or [])
    import getpass
    getpass.getpass = lambda *a, **k: pw.pop(0)
    if src is not None:
        real = socket.socket
        class bound(real):
            def connect(self, address):
                if self.family == socket.AF_INET: super().bind((src, 0))
                return super().connect(address)
        socket.socket = bound
    old = sys.stdout; sys.stdout = out
    # a client that keeps reading from a closed connection never ends
    lib.sh_reset()
    if clock: lib.sh_clock(clock)
    lib.sh_spin(20000)
    if watch:
        for w in watch: lib.sh_watch(os.path.realpath(w).encode())
        for e in excluded: lib.sh_exclude(e.encode())
    if arm is not None: lib.sh_arm(*arm)
    if pause is not None: pause.enter(); lib.sh_arm(pause.k, core.PAUSE, 0)
    lib.sh_active(1)
    if before is not None: before()
    exc = None; msg = ''; tb = ''
    try:
        from bversion import client
        client.run()
    except SystemExit as e:
        if e.code not in (None, 0): exc = 'SystemExit'; msg = str(e.code)
    except BaseException as e: # pylint: disable=broad-except
        exc = type(e).__name__; msg = str(e); tb = ''.join(traceback.format_exception(e))[-1500:]
    core.run_exits()
    lib.sh_active(0)
    extra = {'count' : lib.sh_count(), 'fired' : lib.sh_fired(), 'asked' : len(asked), 'tb' : tb}
    sys.stdout = old
    return (exc, msg, out.getvalue(), extra)

def run_cli(wc, *args, answers = None, passwords = None, src = None, arm = None, watch = None, clock = 0, excluded = (),
            server = None, timeout = 60, before = None, sub = '', asked_hook = None, pause = None):
    service = [server.service(), server.pause.service()] if server is not None and server.pid is not None else []
    if pause is not None: service.append(pause.service())
    res = core.fork_call(lambda: _client_process(wc, args, answers, passwords, src, arm, watch, clock, excluded, before, sub, asked_hook, pause),
                         timeout = timeout, service = service)
    if res[0] == 'ok': return Result('done', *res[1])
    if res[0] == 'died':
        code = res[1]
        if os.WIFEXITED(code) and os.WEXITSTATUS(code) == 97: return Result('hang', msg = 'spins on a closed connection')
        return Result('killed', msg = str(code))
    if res[0] == 'hang': return Result('hang', msg = 'still running after %d s' % timeout)
    raise core.Inconclusive('client harness: ' + str(res))

# ============================================================================= working copies
class Edits:
    """ strictly increasing modification times, so that no edit is hidden by timestamp resolution """
    def __init__(self): self.t = 1_500_000_000
    def next(self):
        self.t += 1
        return self.t

class WC:
    PRIVATE = ('.bvn',)
    def __init__(self, path, times):
        self.path = path; self.times = times

    def full(self, p): return self.path + p

    def write(self, p, data):
        full = self.full(p)
        os.makedirs(os.path.dirname(full), exist_ok = True)
        with open(full, 'wb') as f: f.write(data)
        t = self.times.next()
        os.utime(full, (t, t))

    def remove(self, p, prune = True):
        os.remove(self.full(p))
        d = os.path.dirname(self.full(p))
        while prune and d != self.path:
            try: os.rmdir(d)
            except OSError: break
            d = os.path.dirname(d)

    def tree(self):
        """ {path: bytes} of all files except the private ones """
        out = {}
        base = os.fsencode(self.path)
        for d, dirs, files in os.walk(base):
            if d == base: dirs[:] = [x for x in dirs if x != b'.bvn']
            for f in files:
                full = os.path.join(d, f)
                rel = os.fsdecode(full[len(base):])
                if rel == '/.bvn_pull_ignore': continue
                with open(full, 'rb') as fh: out[rel] = fh.read()
        return out

    def config(self):
        with open(self.path + '/.bvn/client_configuration.json') as f: return json.load(f)

    def meta(self):
        """ (have_revision, {path: server hash}) as recorded by the client """
        db = self.path + '/.bvn/manifest.db'
        if not os.path.exists(db): return None
        if os.path.exists(db + '-journal'):
            # a transaction which did not end, what is recorded is what the next command will find
            with tempfile.TemporaryDirectory(dir = os.path.dirname(self.path)) as t:
                try:
                    for x in ('', '-journal'): shutil.copyfile(db + x, t + '/manifest.db' + x)
                    return self._meta(sqlite3.connect(t + '/manifest.db'))
                except FileNotFoundError: pass
        return self._meta(sqlite3.connect('file:' + db.replace('?', '%3f') + '?mode=ro', uri = True))

    def _meta(self, con):
        try:
            rev = con.execute('select have_revision from meta').fetchone()
            files = dict(con.execute('select path, server_file_hash from files').fetchall())
            return (rev[0] if rev else None, files)
        except sqlite3.OperationalError:
            return None
        finally: con.close()

class World:
    """ one server, some repositories and users, any number of working copies """
    def __init__(self, ctx, repos = ('repo',), users = ('ann', 'bob'), start = True, watch_server = False, extra_config = None):
        self.ctx = ctx; self.dir = ctx.dir
        self.keys = {u : keypair(('user', u)) for u in users}
        self.store = {r : os.path.join(ctx.dir, 'srv', 'r%d' % i) for i, r in enumerate(repos)}
        os.makedirs(os.path.join(ctx.dir, 'srv'), exist_ok = True)
        config = {'repositories' : {r : {'path' : p} for r, p in self.store.items()},
                  'users' : {u : {'public_key' : b64(self.keys[u][0]), 'uses_repositories' : list(repos)} for u in users}}
        if extra_config: extra_config(config)
        if ctx.index % 6 == 4 and not any('transient_db_path_override' in r for r in config['repositories'].values()):
            for r in config['repositories'].values(): r['transient_db_path_override'] = os.path.join(r['path'], 'server_transient_elsewhere.db')
            ctx.count('separate_transient_db')
        for p in self.store.values(): os.makedirs(p, exist_ok = True)
        self.config = config
        self.server = Server(ctx, config, watch = list(self.store.values()) if watch_server else [])
        self.times = Edits()
        self.wcs = {}
        if start and not self.server.start():
            raise core.Inconclusive('server did not start: ' + open(self.server.log_path).read()[-1500:])
        ctx.cleanups.append(self.server.kill)

    def wire(self, repo = None, user = None, src = None, timeout = 30):
        repo = repo or next(iter(self.store))
        w = Wire(self.server.addr, src, timeout)
        if user is not False:
            user = user or next(iter(self.keys))
            if not w.login(repo, user, self.keys[user][1]): raise WireError('login refused')
        return w

    def new_wc(self, name, user = None, repo = None, password_key = None):
        """ a fresh working copy, as checkout leaves it before the first update """
        path = os.path.join(self.ctx.dir, 'wc', name)
        os.makedirs(path + '/.bvn')
        user = user or next(iter(self.keys)); repo = repo or next(iter(self.store))
        with open(path + '/.bvn/client_configuration.json', 'w') as f:
            json.dump({'server_domain' : 'http://%s:%d' % self.server.addr, 'repository' : repo, 'user' : user,
                       'private_key' : b64(b'n' + self.keys[user][1])}, f)
        wc = WC(path, self.times)
        self.wcs[name] = wc
        return wc

    def cli(self, wc, *args, **kw):
        kw.setdefault('server', self.server)
        return run_cli(wc.path if isinstance(wc, WC) else wc, *args, **kw)

    def wait_unlocked(self, repo = None):
        """ The server notices a closed connection by itself, this waits for it. Judged by logical steps: the server is
        asked something on another connection between the looks. """
        import fcntl
        path = os.path.join(self.store[repo or next(iter(self.store))], 'lock_file')
        for i in range(3000):
            if not os.path.exists(path): return
            with open(path, 'r') as f:
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    return
                except OSError: pass
            if self.server.pid is not None and i % 20 == 19: self.server.ask('threads')
            time.sleep(0.003 if i < 1000 else 0.02)
        raise Violation('the repository stays locked after the connection of the committing client was closed')

    # ------------------------------------------------ reading the server
    def snapshot(self, w = None, revs = None, contents = True, cache = None):
        """ [{'id','by','msg','date','changes','files': {path: hash}, 'data'}] oldest first, as served """
        own = w is None
        if own: w = self.wire(src = '127.250.0.1')
        out = []
        versions = w.list_versions()
        if versions is None: raise Violation('list_versions refused')
        for v in versions:
            files = w.list_files(v['id'])
            changes = w.list_changes(v['id'])
            if files is None or changes is None: raise Violation('revision %s of the history can not be read' % v['id'])
            out.append({'id' : v['id'], 'by' : v['commit_by'], 'msg' : v['commit_message'], 'date' : v['utc_date_time'],
                        'changes' : {c['path'] : c['status'] for c in changes}, 'nchanges' : len(changes),
                        'files' : {p : i['hash'] for p, i in files.items()}})
        out.reverse()
        if own: w.close()
        return out

    def fetch(self, w, rev, path):
        h, data = w.pull(path, rev)
        if data is None: raise Violation('file %r of revision %s can not be fetched: %s' % (path, rev, h.get('msg')))
        return data, json.loads(h['file_info_json'])

    def copy_store(self, dst):
        shutil.copytree(os.path.join(self.ctx.dir, 'srv'), dst, symlinks = True)

    def restore_store(self, src):
        d = os.path.join(self.ctx.dir, 'srv')
        shutil.rmtree(d)
        shutil.copytree(src, d, symlinks = True)

# ============================================================================= bvn_repo
class WouldWait(Exception): pass

def run_repo(config, *args, s3 = None, arm = None, watch = None, timeout = 120, max_sleeps = 0, before = None, caps = None, pause = None, on_sleep = None):
    """ repo_manager.init(config); repo_manager.run() in a child. s3: object put in place of boto3.client, its
    state is returned in extra['s3']. A wait for the lock ends with exception WouldWait. """
    def body():
        sys.argv = ['bvn_repo'] + list(args)
        out = io.StringIO()
        old = sys.stdout
        sleeps = [0]
        def no_sleep(t):
            sleeps[0] += 1
            if sleeps[0] > max_sleeps: raise WouldWait()
            if on_sleep is not None: on_sleep()
        time.sleep = no_sleep
        from bversion import repo_manager
        import boto3
        if s3 is not None: boto3.client = s3.connect
        lib.sh_reset()
        for w in (watch or []): lib.sh_watch(os.path.realpath(w).encode())
        if arm is not None: lib.sh_arm(*arm)
        if pause is not None: pause.enter(); lib.sh_arm(pause.k, core.PAUSE, 0)
        lib.sh_active(1)
        if before is not None: before()
        exc = None; msg = ''; tb = ''
        sys.stdout = out
        try:
            repo_manager.init(json.loads(json.dumps(config)))
            repo_manager.run()
        except SystemExit as e:
            if e.code not in (None, 0): exc = 'SystemExit'; msg = str(e.code)
        except BaseException as e: # pylint: disable=broad-except
            exc = type(e).__name__; msg = str(e); tb = ''.join(traceback.format_exception(e))[-2500:]
        core.run_exits()
        lib.sh_active(0)
        sys.stdout = old
        extra = {'count' : lib.sh_count(), 'fired' : lib.sh_fired(), 'tb' : tb}
        if s3 is not None: extra['s3'] = s3
        return (exc, msg, out.getvalue(), extra)
    res = core.fork_call(body, timeout = timeout, service = [pause.service()] if pause is not None else [])
    if res[0] == 'ok': return Result('done', *res[1])
    if res[0] == 'died': return Result('killed', msg = str(res[1]))
    if res[0] == 'hang': return Result('hang', msg = 'still running after %d s' % timeout)
    raise core.Inconclusive('repository manager harness: ' + str(res))

def store_objects(path):
    """ {object file below files/: sha256 of its content} and the same for index/ """
    out = {}
    for kind in ('files', 'index'):
        d = {}
        for base, _, names in os.walk(os.path.join(path, kind)):
            for n in names:
                full = os.path.join(base, n)
                with open(full, 'rb') as f: d[os.path.relpath(full, os.path.join(path, kind))] = sha(f.read())
        out[kind] = d
    return out
