""" Case runner, evidence and verdicts.

A check module defines
    LEVEL, RULE, ASSUMPTIONS
    plan(tier) -> number of cases      (or a list of case parameters)
    case(ctx)                          runs one case, ctx.index / ctx.rng / ctx.param
    QUICK_WALL / THOROUGH_WALL         optional soft wall caps, after which no new case starts
    REQUIRED = [names]                 counters which have to be non zero for the verdict "held"

A case runs in its own session (process group), everything it leaves behind is killed.
"""
import socket, os, sys, json, time, random, hashlib, signal, shutil, traceback, ctypes, pickle, select, struct, errno, resource

HOME = os.environ.get('VERIF_HOME') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

lib = ctypes.CDLL(None)
HAVE_SHIM = hasattr(lib, 'sh_reset')
if HAVE_SHIM:
    lib.sh_watch.argtypes = lib.sh_exclude.argtypes = lib.sh_allow.argtypes = lib.sh_audit.argtypes = [ctypes.c_char_p]
    lib.sh_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
    lib.sh_count.restype = ctypes.c_long
    lib.sh_delay.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint]
    lib.sh_caps.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_uint]
    lib.sh_spin.argtypes = [ctypes.c_long]
    lib.sh_cut.argtypes = [ctypes.c_longlong]
    lib.sh_clock.argtypes = [ctypes.c_double]
    lib.sh_patience.argtypes = [ctypes.c_long]
    lib.sh_only_path.argtypes = [ctypes.c_char_p]
    lib.sh_opcount.argtypes = lib.sh_opname.argtypes = [ctypes.c_int]
    lib.sh_opcount.restype = ctypes.c_long
    lib.sh_opname.restype = ctypes.c_char_p

from vlib.wire import WireError

KILL, HALF_KILL, ERR, ERR_FROM, HALF_ERR, STOP, PAUSE = 1, 2, 3, 4, 5, 6, 7

OPS = ['open', 'write', 'trunc', 'rename', 'unlink', 'rmdir', 'mkdir', 'link', 'utime', 'chmod', 'sendfile', 'copy', 'sync', 'read', 'lock']

class Pause:
    """ Lets a process stop at a file-system operation until a callback in the harness returned """
    def __init__(self, callback, k = 0, reads = False, only = ()):
        self.only = sum(1 << OPS.index(o) for o in only)
        self.here, self.there = socket.socketpair()
        self.callback = callback; self.k = k; self.reads = reads; self.fired = 0
    def enter(self):
        """ in the process """
        fd = self.there.fileno()
        lib.sh_pause(fd, fd); lib.sh_reads(int(self.reads)); lib.sh_only(self.only)
    def service(self):
        def cb(fd):
            try: c = os.read(fd, 1)
            except OSError: return False
            if c == b'': return False
            self.fired += 1
            self.callback()
            os.write(fd, b'g')
            return True
        return (self.here.fileno(), cb)
    def close(self): self.here.close(); self.there.close()

class Violation(Exception):
    def __init__(self, msg, detail = None):
        super().__init__(msg)
        self.msg = msg; self.detail = detail

class Inconclusive(Exception): pass

def make_rng(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], 'big'))

def pdeathsig():
    lib.prctl(1, signal.SIGKILL, 0, 0, 0)

# ------------------------------------------------------------------ scratch
def scratch_base():
    for base in ('/dev/shm', '/tmp'):
        if os.path.isdir(base) and os.access(base, os.W_OK): return base
    return '/tmp'

# ------------------------------------------------------------------ pipes
def send_msg(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('!I', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]

def _read_n(fd, n):
    buf = b''
    while len(buf) < n:
        chunk = os.read(fd, n - len(buf))
        if chunk == b'': raise EOFError()
        buf += chunk
    return buf

def recv_msg(fd):
    n = struct.unpack('!I', _read_n(fd, 4))[0]
    return pickle.loads(_read_n(fd, n))

exits = []
def watch_exits():
    """ what the code under test wants to be done at the end of its process, which ends with os._exit here """
    import atexit
    real = atexit.register; gone = atexit.unregister
    def register(func, *args, **kw):
        if not str(sys._getframe(1).f_globals.get('__name__', '')).startswith('bversion'): return real(func, *args, **kw)
        exits.append((func, args, kw)); return func
    def unregister(func):
        exits[:] = [e for e in exits if e[0] != func]
        return gone(func)
    atexit.register = register; atexit.unregister = unregister

def run_exits():
    while exits:
        func, args, kw = exits.pop()
        try: func(*args, **kw)
        except BaseException: pass # pylint: disable=broad-except

def fork_call(fn, timeout = 60, on_idle = None, service = None):
    """ Run fn in a forked child, returns ('ok', result) | ('exc', text) | ('died', status) | ('hang', None).
    service: (fd, callback) pairs which are looked after while waiting. """
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            pdeathsig()
            os.close(r)
            try: out = ('ok', fn())
            except Violation as e: out = ('violation', (e.msg, e.detail))
            except BaseException as e: out = ('exc', ''.join(traceback.format_exception(e))) # pylint: disable=broad-except
            if HAVE_SHIM: lib.sh_reset()
            send_msg(w, out)
        except BaseException: code = 9 # pylint: disable=broad-except
        finally: os._exit(code)
    os.close(w)
    deadline = time.monotonic() + timeout
    buf = b''; result = None
    fds = [r] + [f for f, _ in (service or [])]
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                result = ('hang', None); break
            ready, _, _ = select.select(fds, [], [], min(left, 1.0))
            for f, cb in (service or []):
                if f in ready and not cb(f): fds.remove(f)
            if r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk == b'': break
                buf += chunk
    except BaseException:
        result = ('hang', None) # something that looked after it gave up, it must not be waited for
        raise
    finally:
        os.close(r)
        if result is not None:
            try: os.kill(pid, signal.SIGKILL)
            except ProcessLookupError: pass
        _, status = os.waitpid(pid, 0)
    if result is not None: return result
    if len(buf) < 4 or len(buf) < 4 + struct.unpack('!I', buf[:4])[0]: return ('died', status)
    return pickle.loads(buf[4:])

# ------------------------------------------------------------------ case context
class Ctx:
    def __init__(self, prop, tier, seed, index, param, scratch):
        self.prop = prop; self.tier = tier; self.seed = seed; self.index = index; self.param = param
        self.rng = make_rng(seed, prop, index)
        self.dir = scratch
        self.counts = {}; self.sigs = set(); self.log = []; self.samples = []; self.evaluations = 0
        self.cleanups = []
        self.debug = bool(os.environ.get('VERIF_DEBUG'))

    quick = property(lambda self: self.tier == 'quick')

    def count(self, name, n = 1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, *args):
        """ The history of the case, kept for the replay file """
        text = ' '.join(str(a) for a in args)
        if len(text) > 600: text = text[:600] + '...'
        self.log.append(text)
        if self.debug: print('   ', text, flush = True)

    def evaluated(self, sig = None, n = 1):
        """ One case was judged by the oracle; sig tells distinct non-trivial ones apart """
        self.evaluations += n
        if sig is not None: self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def sample(self, obj):
        if len(self.samples) < 2: self.samples.append(obj)

    def fail(self, msg, detail = None):
        raise Violation(msg, detail)

    def check(self, cond, msg, detail = None):
        self.count('assertions')
        if not cond: raise Violation(msg, detail)

    def subdir(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok = True)
        return p

def server_logs(scratch):
    out = ''
    for n in sorted(os.listdir(scratch)):
        if n.endswith('.log'): out += open(os.path.join(scratch, n), errors = 'replace').read()[-1500:]
    return out

def run_one(prop, module, tier, seed, index, param, scratch_root, timeout):
    """ Runs a case in a new session, returns a result dict """
    scratch = os.path.join(scratch_root, 'c%d' % index)
    os.makedirs(scratch)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setsid(); pdeathsig(); os.close(r)
            # the address depends on the case only, so that different workers never collide
            ctx = Ctx(prop, tier, seed, index, param, scratch)
            ctx.slot = (os.getppid(), index)
            res = {'index' : index, 'violation' : None, 'inconclusive' : None}
            try:
                module.case(ctx)
            except Violation as e:
                res['violation'] = {'msg' : e.msg, 'detail' : repr(e.detail)[:4000] if e.detail is not None else None,
                                    'where' : ''.join(traceback.format_tb(e.__traceback__)[-4:])}
            except Inconclusive as e:
                res['inconclusive'] = str(e)
            except WireError as e:
                # no fault was injected where the case does not expect this
                text = ''.join(traceback.format_exception(e))[-2500:]
                if e.slow: res['inconclusive'] = 'a reply did not arrive in time: ' + text
                else: res['violation'] = {'msg' : 'the server broke a connection, or sent something that is no reply, without any injected fault',
                                          'detail' : text + '\n' + server_logs(scratch), 'where' : text}
            except BaseException as e: # pylint: disable=broad-except
                res['inconclusive'] = 'harness error: ' + ''.join(traceback.format_exception(e))[-3000:]
            for fn in reversed(ctx.cleanups):
                try: fn()
                except BaseException: pass # pylint: disable=broad-except
            res.update(counts = ctx.counts, sigs = ctx.sigs, log = ctx.log[-120:], samples = ctx.samples, evaluations = ctx.evaluations)
            send_msg(w, res)
        except BaseException: # pylint: disable=broad-except
            traceback.print_exc(); code = 9
        finally: os._exit(code)
    os.close(w)
    deadline = time.monotonic() + timeout
    buf = b''; hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0: hang = True; break
        ready, _, _ = select.select([r], [], [], left)
        if r in ready:
            chunk = os.read(r, 1 << 20)
            if chunk == b'': break
            buf += chunk
            if len(buf) >= 4 and len(buf) >= 4 + struct.unpack('!I', buf[:4])[0]: break
    os.close(r)
    try: os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    os.waitpid(pid, 0)
    # descendants of the session that got reparented to us
    while True:
        try:
            p, _ = os.waitpid(-1, os.WNOHANG)
            if p == 0: break
        except ChildProcessError: break
    shutil.rmtree(scratch, ignore_errors = True)
    if hang or len(buf) < 4:
        return {'index' : index, 'violation' : None, 'inconclusive' : 'case timed out' if hang else 'case process died',
                'counts' : {}, 'sigs' : set(), 'log' : [], 'samples' : [], 'evaluations' : 0}
    return pickle.loads(buf[4:])

# ------------------------------------------------------------------ whole check
def run_check(prop, module, argv):
    os.environ['VERIF_RUN_PID'] = str(os.getpid())
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None; only = None
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1]))
        tier = replay['tier']; seed = replay['seed']; only = replay['index']
    if '--only' in argv: only = int(argv[argv.index('--only') + 1])

    if not HAVE_SHIM:
        print('the interposition library is not loaded, run this through run.sh'); return 3

    # imported once, every process is forked from here
    watch_exits()
    import bversion.client, bversion.server # pylint: disable=unused-import
    if getattr(module, 'NEEDS_REPO_MANAGER', False): import bversion.repo_manager # pylint: disable=unused-import
    real = os.path.realpath(bversion.server.__file__)
    if not real.startswith(os.path.realpath(REPO) + '/'):
        print('the code under test was loaded from ' + real); return 3

    plan = module.plan(tier)
    params = [None] * plan if isinstance(plan, int) else list(plan)
    wall = getattr(module, 'QUICK_WALL', 40) if tier == 'quick' else getattr(module, 'THOROUGH_WALL', 600)
    if 'VERIF_WALL' in os.environ: wall = float(os.environ['VERIF_WALL'])
    case_timeout = getattr(module, 'CASE_TIMEOUT', 120)
    workers = min(getattr(module, 'WORKERS', WORKERS), WORKERS, len(params))

    root = os.path.join(scratch_base(), 'bvnverif-%d-%d' % (os.getpid(), int(time.time() * 1000) % 10**9))
    os.makedirs(root)
    os.chmod(root, 0o755)
    if hasattr(module, 'prepare'): module.prepare(tier)

    indices = [only] if only is not None else list(range(len(params)))
    total = {'counts' : {}, 'sigs' : set(), 'samples' : [], 'evaluations' : 0, 'cases' : 0}
    violation = None; inconclusive = []

    def absorb(res):
        nonlocal violation
        total['cases'] += 1
        total['evaluations'] += res['evaluations']
        total['sigs'] |= res['sigs']
        for k, v in res['counts'].items(): total['counts'][k] = total['counts'].get(k, 0) + v
        for s in res['samples']:
            if len(total['samples']) < 4: total['samples'].append(s)
        if res['inconclusive']: inconclusive.append((res['index'], res['inconclusive']))
        if res['violation'] and violation is None: violation = res

    try:
        # Shared work queue: one byte tokens through a pipe would limit us to the pipe size, so
        # every worker asks the parent for its next index
        procs = []
        for wk in range(workers if only is None else 1):
            a, b = os.pipe(); c, d = os.pipe() # a<-b: results to the parent; c<-d: indices to the worker
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    pdeathsig(); os.close(a); os.close(d)
                    lib.prctl(36, 1, 0, 0, 0) # subreaper, so that strays of cases can be reaped
                    while True:
                        i = recv_msg(c)
                        if i is None: break
                        send_msg(b, run_one(prop, module, tier, seed, i, params[i], os.path.join(root), case_timeout))
                except EOFError: pass
                except BaseException: traceback.print_exc() # pylint: disable=broad-except
                finally: os._exit(0)
            os.close(b); os.close(c)
            procs.append({'pid' : pid, 'r' : a, 'w' : d})

        queue = list(reversed(indices))
        live = {p['r'] : p for p in procs}
        def give(p):
            if queue and violation is None and time.monotonic() - t0 < wall:
                i = queue.pop()
                send_msg(p['w'], i)
            else:
                send_msg(p['w'], None)
                live.pop(p['r'])
        for p in procs: give(p)
        while live:
            ready, _, _ = select.select(list(live), [], [], 5)
            for fd in ready:
                p = live[fd]
                try: res = recv_msg(fd)
                except EOFError:
                    live.pop(fd); inconclusive.append((-1, 'a worker died')); continue
                absorb(res)
                give(p)
            if violation is not None:
                # let the others finish their current case only if that is quick
                end = time.monotonic() + 2
                while live and time.monotonic() < end:
                    ready, _, _ = select.select(list(live), [], [], 0.2)
                    for fd in ready:
                        try: absorb(recv_msg(fd))
                        except EOFError: pass
                        live.pop(fd)
                break
        for p in procs:
            try: os.kill(p['pid'], signal.SIGTERM)
            except ProcessLookupError: pass
        for p in procs:
            try: os.waitpid(p['pid'], 0)
            except ChildProcessError: pass
    finally:
        shutil.rmtree(root, ignore_errors = True)

    wall_s = time.monotonic() - t0
    skipped = len(queue)
    evidence = {
        'property' : prop, 'tier' : tier, 'seed' : seed, 'level' : module.LEVEL,
        'coverage' : {
            'evaluations' : total['evaluations'],
            'distinct_nontrivial' : len(total['sigs']),
            'rule' : module.RULE,
            'samples' : total['samples'] or [{'note' : 'no sample'}],
            'cases' : total['cases'],
            'cases_planned' : len(params),
            'observed' : dict(sorted(total['counts'].items())),
            'inconclusive_cases' : len(inconclusive),
        },
        'assumptions' : getattr(module, 'ASSUMPTIONS', []),
        'wall_s' : round(wall_s, 2),
        'violations' : 0 if violation is None else 1,
    }
    if inconclusive: evidence['coverage']['inconclusive_examples'] = [str(x)[-1500:] for x in inconclusive[:3]]
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok = True)
    if only is None:
        text = json.dumps(evidence, indent = 1, default = repr)
        if len(text) > 60000:
            evidence['coverage']['samples'] = [repr(s)[:3000] for s in evidence['coverage']['samples'][:2]]
            text = json.dumps(evidence, indent = 1, default = repr)
        with open(os.path.join(HOME, 'evidence', prop + '.json'), 'w') as f: f.write(text)

    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d inconclusive, %.1f s' % (
        prop, tier, seed, total['cases'], total['evaluations'], len(total['sigs']), len(inconclusive), wall_s))
    print('observed: ' + json.dumps(dict(sorted(total['counts'].items()))))
    if skipped and violation is None: print('wall cap reached, %d planned cases not run' % skipped)

    if violation is not None:
        path = os.path.join(HOME, 'evidence', '%s-replay-%d.json' % (prop, violation['index']))
        with open(path, 'w') as f:
            json.dump({'property' : prop, 'tier' : tier, 'seed' : seed, 'index' : violation['index'],
                       'violation' : violation['violation'], 'history' : violation['log']}, f, indent = 1, default = repr)
        print(violation['violation']['msg'])
        if violation['violation']['detail']: print(violation['violation']['detail'][:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1

    for i, what in inconclusive[:3]: print('inconclusive case %d: %s' % (i, what))
    if only is not None: return 0 if not inconclusive else 2
    if len(inconclusive) > max(2, 0.1 * total['cases']):
        print('inconclusive: too many cases gave no verdict'); return 2
    missing = [n for n in getattr(module, 'REQUIRED', []) if not total['counts'].get(n)]
    if missing or total['evaluations'] == 0 or len(total['sigs']) < 2:
        print('inconclusive: never observed ' + (', '.join(missing) or 'enough cases')); return 2
    return 0
