""" the real HTTP server and client transport carrying generated messages through capped reads and writes, plain and TLS, concurrently, with either side vanishing at chosen byte positions; what was handed in is compared with what came out, and every broken connection has to be noticed """
import os, sys, io, json, time, socket, struct, threading, traceback, hashlib, ssl
from vlib import core, gen
from vlib.core import lib, send_msg, recv_msg, HOME
from vlib.world import address
from vlib.wire import Wire

LEVEL = 'exploration'
RULE = ('a case starts the real HTTPServer with a handler that records what it is given and answers with generated messages; scenarios are exchanges of real clients under read and write caps, requests cut at a byte position by a raw peer, replies cut at a byte position by a raw server, '
        'receivers vanishing during large replies, silent peers under shortened waiting times, files changing while they are sent. An evaluation is one message or one broken connection that was judged; distinct by scenario, size class, caps, kind of end, and position class')
ASSUMPTIONS = ['one request is answered before the next one is sent on a connection', 'header names are ASCII tokens', 'the server bounds waiting through poll, select, epoll or socket options (their timeouts are divided by 100 to observe the end of silent connections)']
REQUIRED = ['exact_messages', 'cut_requests', 'cut_in_preamble', 'cut_in_body', 'cut_replies', 'cut_reply_in_preamble', 'cut_reply_in_body', 'receiver_gone', 'silent_peers', 'tls_messages', 'tls_cut_replies', 'capped', 'concurrent', 'file_truncated', 'file_grown', 'served_files', 'releases']
QUICK_WALL = 25
THOROUGH_WALL = 600
CASE_TIMEOUT = 150
SLOW = 25 # seconds after which something counts as never happening

def plan(tier): return 96 if tier == 'quick' else 3000

def pattern(kind, seed, n):
    if kind == 'random': return core.make_rng('c14', seed).randbytes(n)
    if kind == 'breaks': u = b'\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc%d' % seed
    elif kind == 'json': u = b'{"status": "ok", "x": "%d"}\r\n' % seed
    elif kind == 'zero': u = b'\0'
    else: u = b'0123456789%d\n' % seed
    return (u * (n // len(u) + 1))[:n]

def digest(b): return hashlib.sha256(b).hexdigest()

# ============================================================================= the server process
class Srv:
    def __init__(self, ctx):
        self.addr = address(ctx)
        a, b = socket.socketpair()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                core.pdeathsig(); a.close()
                self.run(b, os.path.join(ctx.dir, 'http.log'))
            except BaseException: traceback.print_exc()
            finally: os._exit(0)
        b.close(); self.ctl = a
        if recv_msg(a.fileno()) != 'ready': raise core.Inconclusive('server did not start')

    def ask(self, *msg):
        try:
            send_msg(self.ctl.fileno(), msg)
            return recv_msg(self.ctl.fileno())
        except (EOFError, OSError): return None

    def run(self, ctl, log):
        fd = os.open(log, os.O_WRONLY | os.O_CREAT, 0o600); os.dup2(fd, 2)
        sys.stdout = open('/dev/null', 'w'); sys.stderr = os.fdopen(2, 'w', buffering = 1)
        lib.sh_reset(); lib.sh_spin(20000); lib.sh_active(1)
        from bversion.http.http_server import HTTPServer, Responce, ServeFile
        events = []; go = {}
        def handler(rq, context):
            p = json.loads(rq.headers['x-plan'])
            conn, n = p['conn'], p['n']
            context.shutdown_handler = lambda: events.append(('release', conn))
            events.append(('begin', conn, n))
            body = None
            try:
                how = p['read']
                if how == 'all': body = rq.body.read_all()
                elif how == 'json': body = rq.body.read_all(); assert json.loads(body) == p['json']
                elif how == 'get_json': body = json.dumps(rq.get_json(), sort_keys = True).encode()
                elif how == 'chunks':
                    body = b''
                    while True:
                        c = rq.body.read(p['chunk'])
                        if c is None: break
                        body += c
                        if p.get('wait') and len(body) == len(c):
                            e = go.setdefault(conn, threading.Event()); e.wait(60)
                elif how == 'partial': rq.body.read(10)
            except BaseException:
                events.append(('broken', conn, n)); raise
            events.append(('got', conn, n, rq.uri, None if body is None else (len(body), digest(body)) if not p.get('text') else body, {k : v for k, v in rq.headers.items() if k.startswith('x-h')}))
            r = p['reply']
            if r[0] == 'file': return Responce(p['headers'], ServeFile(r[1]))
            if r[0] == 'none': return Responce(p['headers'])
            return Responce(p['headers'], pattern(*r))
        def control():
            while True:
                try: msg = recv_msg(ctl.fileno())
                except (EOFError, OSError): os._exit(0)
                op = msg[0]; out = True
                if op == 'caps': lib.sh_caps(msg[1], msg[2], msg[3])
                elif op == 'patience': lib.sh_patience(msg[1])
                elif op == 'events': out = list(events)
                elif op == 'threads': out = len(sys._current_frames())
                elif op == 'go': go.setdefault(msg[1], threading.Event()).set()
                elif op == 'cpu': out = time.process_time()
                send_msg(ctl.fileno(), out)
        host, port = self.addr
        def ready():
            for _ in range(6000):
                try:
                    s = socket.socket(); s.connect((host, port)); s.close(); break
                except OSError: time.sleep(0.002)
            send_msg(ctl.fileno(), 'ready')
            control()
        threading.Thread(target = ready, daemon = True).start()
        HTTPServer(host, port, handler)

# ============================================================================= real clients
def client_run(url, reqs, caps, path):
    """ in a forked child: the requests over one connection """
    from bversion.http.client_http_request import client_http_request
    out = []
    def one(c, i, q):
        try:
            if q['kind'] == 'file': b, h = c.send_file(q['url'], q['headers'], q['path'])
            elif q['kind'] == 'gen':
                wr, h = c.request(q['url'], q['headers'], q['data'], gen = True)
                target = '%s.%s.%d' % (path, q['id'], i)
                wr(target)
                with open(target, 'rb') as f: b = f.read()
                os.remove(target)
            else: b, h = c.request(q['url'], q['headers'], q['data'])
            return ('ok', len(b), digest(b), h)
        except Exception as e: # pylint: disable=broad-except
            return ('exc', type(e).__name__, str(e)[:100])
    try:
        c = client_http_request(url)
    except Exception as e: return [('connect', repr(e))]
    for i, q in enumerate(reqs):
        out.append(one(c, i, q))
        if out[-1][0] == 'exc': break
    try: c.c.close()
    except Exception: pass
    return out

def client(url, groups, caps, path, timeout = SLOW * 2):
    """ groups of requests, each over its own connection in a thread of its own """
    def f():
        lib.sh_reset(); lib.sh_caps(*caps); lib.sh_spin(20000); lib.sh_active(1)
        if len(groups) == 1: return [client_run(url, groups[0], caps, path)]
        outs = [None] * len(groups)
        def t(i): outs[i] = client_run(url, groups[i], caps, path)
        ts = [threading.Thread(target = t, args = (i,)) for i in range(len(groups))]
        for x in ts: x.start()
        for x in ts: x.join()
        return outs
    return core.fork_call(f, timeout = timeout)

VALUES = ['', ' ', 'plain', ' lead', 'trail ', '  two  ', ':', ': x', 'a: b', 'ünïcödé', '日本語', '\U0001F600', 'tab\tx', '\t', 'nl\nx', '\rcr', 'cr\r', '\n', 'a\rb', '"q"', 'HTTP/1.1 200 OK', '0', '{}', '\u2028', '\x85', '\x0b\x0c', '\xa0', 'a' * 1023, 'b' * 1024, 'c' * 5000, 'ü' * 700, '-', '%0d%0a', '\x00', '\x7f', ' \u3000 ']

class Scen:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = ctx.rng
        self.srv = Srv(ctx)
        self.base = self.srv.ask('threads')
        self.conns = 0; self.url = 'http://%s:%d' % self.srv.addr
        self.file = ctx.dir + '/served'; self.upload = ctx.dir + '/upload'
        self.events_seen = 0

    def wait(self, cond, limit = SLOW):
        end = time.monotonic() + limit
        while True:
            ev = self.srv.ask('events')
            if ev is None: self.ctx.fail('the server process ended (spinning on a connection that is closed, or died)', core.server_logs(self.ctx.dir))
            if cond(ev): return ev
            if time.monotonic() > end: return None
            time.sleep(0.01)

    def quiet(self, what):
        """ all threads of connections have ended """
        end = time.monotonic() + SLOW
        n = None
        while time.monotonic() < end:
            n = self.srv.ask('threads')
            if n is None: self.ctx.fail('the server process ended (spinning on a connection that is closed, or died)', core.server_logs(self.ctx.dir))
            if n <= self.base: return
            time.sleep(0.01)
        c0 = self.srv.ask('cpu'); time.sleep(0.5); c1 = self.srv.ask('cpu')
        self.ctx.fail('a connection that ended keeps a thread of the server going: ' + what, 'threads %d instead of %d, cpu use %.2f' % (n, self.base, (c1 - c0) / 0.5))

    def released(self, conn, what):
        ok = self.wait(lambda ev: any(e[0] == 'release' and e[1] == conn for e in ev))
        self.ctx.check(ok is not None, 'the server does not release what a broken connection held: ' + what)
        ev = self.srv.ask('events')
        self.ctx.check(sum(1 for e in ev if e[:2] == ('release', conn)) == 1, 'released more than once', conn)
        self.ctx.count('releases')

    def newconn(self):
        self.conns += 1
        return self.conns

    def caps(self, biggest):
        """ sizes of single reads and writes, such that messages of that size take some thousand of them at most """
        rng = self.rng
        def one():
            r = rng.random()
            if r < 0.3: return 0
            m = max(1, biggest // 1500)
            v = rng.choice([m, m + rng.randrange(1, 50), m * 7 + 1, max(m, 1024), max(m, 1448)])
            return v if r < 0.5 else -v
        c = (one(), one(), rng.getrandbits(30))
        if c[0] or c[1]: self.ctx.count('capped')
        return c

    def size(self, big = True):
        rng = self.rng; r = rng.random()
        if r < 0.25: return rng.choice([0, 1, 2, 3])
        if r < 0.6 or not big: return rng.randrange(0, 6000)
        if r < 0.9: return rng.choice([x for x in gen.SIZES if x <= 70000]) + rng.choice([-1, 0, 1]) if rng.random() < 0.8 else 130000
        return rng.choice([999999, 1000000, 1000001, 2000003])

    def headers(self, prefix, n = None):
        rng = self.rng
        out = {}
        for i in range(rng.choice([0, 1, 3, 6]) if n is None else n):
            out['%s%d' % (rng.choice([prefix, prefix.upper(), prefix.title()]), i)] = rng.choice(VALUES)
        return out

    def request(self, conn, n, big = True, bad_header = False):
        """ -> (request for the client, expectation) """
        rng = self.rng
        kind = rng.choice(['json', 'json', 'gen', 'file'])
        rs = self.size(big); rk = rng.choice(['random', 'breaks', 'json', 'zero', 'digits'])
        reply = [rk, rng.randrange(1000), max(0, rs)]
        body = pattern(*reply)
        if rng.random() < 0.25:
            p = '%s.%d.%d' % (self.file, conn, n)
            with open(p, 'wb') as f: f.write(body)
            reply = ['file', p]; self.ctx.count('served_files')
        elif not body and rng.random() < 0.5: reply = ['none']
        rh = self.headers('y-r')
        sh = self.headers('x-h')
        read = rng.choice(['all', 'all', 'chunks', 'none', 'partial'])
        pl = {'conn' : conn, 'n' : n, 'read' : read, 'chunk' : rng.choice([1, 10, 1000, 4096, 65536, 1000000, 5000000]), 'reply' : reply, 'headers' : rh}
        q = {'kind' : kind, 'id' : '%d' % conn, 'url' : rng.choice(['x', 'a/b', 'q?x=1&y=%20', 'ünï', '']), 'headers' : sh}
        if kind == 'file':
            data = pattern(rng.choice(['random', 'breaks', 'zero']), conn * 100 + n, max(0, self.size(big)))
            q['path'] = '%s.%d.%d' % (self.upload, conn, n)
            with open(q['path'], 'wb') as f: f.write(data)
            sent = data
        else:
            q['data'] = rng.choice([None, {}, {'k' : 'v\r\n\r\n"ü'}, [1, 2.5, None], {'files' : '[{"path": "/日本"}]'}, 'text', {'k' : 'x' * rng.choice([10, 1000, 70000 if big else 2000])}, ''])
            sent = None
            if rng.random() < 0.3: pl['read'] = 'get_json'
            elif pl['read'] in ('all', 'chunks'): pl['text'] = True
        if pl['read'] == 'chunks' and pl['chunk'] < 100 and kind == 'file' and len(sent) > 30000: pl['chunk'] = 5000
        q['headers'] = dict(sh, **{'X-Plan' : json.dumps(pl)})
        return q, {'plan' : pl, 'sent' : sent, 'data' : q.get('data'), 'body' : body, 'x' : {k.lower() : v for k, v in sh.items()}, 'y' : {k.lower() : v for k, v in rh.items()}, 'url' : '/' + q['url'], 'kind' : kind}

    def judge(self, ev, conn, n, exp, res):
        """ a completed exchange """
        ctx = self.ctx
        got = [e for e in ev if e[0] == 'got' and e[1] == conn and e[2] == n]
        ctx.check(len(got) == 1, 'a request was handled %d times' % len(got), (conn, n))
        _, _, _, uri, body, x = got[0]
        ctx.check(uri == exp['url'], 'another address arrived', (uri, exp['url']))
        ctx.check(x == exp['x'], 'request headers arrived differently', (x, exp['x']))
        how = exp['plan']['read']
        if how in ('all', 'chunks'):
            if exp['sent'] is not None: ctx.check(body == (len(exp['sent']), digest(exp['sent'])), 'a request body arrived differently', (body, len(exp['sent'])))
            else:
                try: value = json.loads(body) # the text is up to the client
                except ValueError: value = 'not JSON'
                ctx.check(value == (exp['data'] if exp['data'] is not None else {}), 'a JSON request body arrived differently', body[:300])
        elif how == 'get_json' and exp['sent'] is None:
            w = json.dumps(exp['data'] if exp['data'] is not None else {}, sort_keys = True).encode()
            ctx.check(body == (len(w), digest(w)), 'JSON arrived differently', (body, w[:200]))
        ctx.check(res[0] == 'ok', 'a request fails without any fault: %s' % (res,))
        _, length, dg, h = res
        ctx.check((length, dg) == (len(exp['body']), digest(exp['body'])), 'a reply body arrived differently', (length, len(exp['body']), exp['plan']))
        ctx.check({k : v for k, v in h.items() if k.startswith('y-r')} == exp['y'], 'reply headers arrived differently', (h, exp['y']))
        ctx.count('exact_messages')

    # ------------------------------------------------ scenarios
    def exact(self, tls = False):
        ctx = self.ctx; rng = self.rng
        groups = []; exps = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            conn = self.newconn()
            qs = []; es = []
            for n in range(rng.choice([1, 3, 8])):
                q, e = self.request(conn, n); qs.append(q); es.append(e)
            groups.append(qs); exps.append((conn, es))
        if len(groups) > 1: ctx.count('concurrent')
        biggest = max(max(len(e['body']), len(e['sent'] or b''), 6000) for _, es in exps for e in es)
        sc = self.caps(biggest); cc = self.caps(biggest)
        self.srv.ask('caps', *sc)
        ctx.note('exact', 'tls' if tls else '', sc, cc, [[e['plan'] for e in es] for _, es in exps])
        url = self.url
        if tls: proxy = Proxy(self); url = 'https://%s:%d' % proxy.addr
        res = client(url, groups, cc, ctx.dir + '/out')
        if tls: proxy.close()
        ctx.check(res[0] != 'died', 'a client spins on a connection or dies', res)
        ctx.check(res[0] != 'hang', 'clients wait forever', [e['plan'] for _, es in exps for e in es])
        ctx.check(res[0] == 'ok', 'harness', res)
        for (conn, es), out in zip(exps, res[1]):
            self.released(conn, 'after ordinary requests')
            ev = self.srv.ask('events')
            for n, e in enumerate(es):
                ctx.check(n < len(out), 'a request fails without any fault', out[-1:])
                self.judge(ev, conn, n, e, out[n])
                ctx.evaluated(('exact', tls, e['kind'], e['plan']['read'], len(e['body']).bit_length(), len(e['sent'] or b'').bit_length(), min(abs(sc[0]), 9), min(abs(sc[1]), 9), min(abs(cc[0]), 9), min(abs(cc[1]), 9)))
                if tls: ctx.count('tls_messages')
        self.srv.ask('caps', 0, 0, 1)
        self.quiet('after ordinary requests')

    def odd_header(self):
        """ a value that can not be transported must not arrive as something else """
        ctx = self.ctx; rng = self.rng
        conn = self.newconn()
        v = rng.choice(['a\r\nb', 'a\r\ny-r9: forged', '\r\n', 'x\r\n\r\nbody', '\r\n\r\n', 'x\r\nContent-Length: 0'])
        q, e = self.request(conn, 0, False)
        side = rng.choice(['client', 'server'])
        p = e['plan']
        if side == 'server': p['headers'] = dict(p['headers'], **{'y-r7' : v}); e['y']['y-r7'] = v
        else: q['headers']['x-h7'] = v; e['x']['x-h7'] = v
        q['headers']['X-Plan'] = json.dumps(p)
        ctx.note('odd header', side, repr(v))
        res = client(self.url, [[q]], (0, 0, 1), ctx.dir + '/out')
        ctx.check(res[0] == 'ok', 'a client hangs or dies because of a header', res)
        out = res[1][0][0]
        ev = self.srv.ask('events')
        for g in ev:
            if g[0] == 'got' and g[1] == conn: ctx.check(g[5] == e['x'], 'request headers arrived differently', (g[5], e['x']))
        if out[0] == 'ok': self.judge(ev, conn, 0, e, out)
        self.quiet('after a header that can not be sent')
        ctx.evaluated(('odd', side, out[0], v))

    def raw(self, rcvbuf = None):
        s = socket.socket()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(SLOW)
        s.connect(self.srv.addr)
        return s

    def raw_request(self, conn, n, read, reply, size, **kw):
        pl = dict({'conn' : conn, 'n' : n, 'read' : read, 'chunk' : 1000, 'reply' : reply, 'headers' : {}}, **kw)
        return Wire.preamble('raw', {'x-plan' : json.dumps(pl), 'x-h1' : 'v'}, size)

    def end(self, s, how):
        if how == 'shutdown': s.shutdown(socket.SHUT_WR)
        elif how == 'reset':
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); s.close()
        else: s.close()

    def cut_request(self):
        """ the sender vanishes at a byte position """
        ctx = self.ctx; rng = self.rng
        conn = self.newconn()
        size = rng.choice([1, 2, 50, 5000, 70000, 300000])
        body = pattern(rng.choice(['random', 'breaks', 'json']), conn, size)
        read = rng.choice(['all', 'chunks', 'none', 'partial', 'get_json'])
        pre = self.raw_request(conn, 1, read, ['digits', 1, 100], size)
        whole = pre + body
        where = rng.choice(['idle', 'preamble', 'edge', 'body', 'body', 'last'])
        k = {'idle' : 0, 'preamble' : rng.randrange(1, len(pre)), 'edge' : len(pre) - rng.choice([0, 1, 2, 3, 4]), 'body' : len(pre) + rng.randrange(0, size), 'last' : len(whole) - 1}[where]
        how = rng.choice(['close', 'shutdown', 'reset'])
        first = rng.random() < 0.7 # a complete request before
        ctx.note('cut request', where, k, 'of', len(whole), how, read, first)
        self.srv.ask('caps', 0, rng.choice([0, 0, -7, -1500]) if len(whole) < 10000 else 0, rng.getrandbits(30))
        s = self.raw()
        if first:
            p = self.raw_request(conn, 0, 'all', ['digits', 2, 30], 3)
            s.sendall(p + b'abc')
            w = Wire(self.srv.addr); w.s = s
            h, b = w.read_reply()
            ctx.check(b == pattern('digits', 2, 30), 'a reply arrived differently', b)
        pos = 0
        while pos < k:
            n = rng.choice([k, 1, 100, 1023, 1024, 1025]); s.sendall(whole[pos:min(k, pos + n)]); pos += n
            if rng.random() < 0.2: time.sleep(0.001)
        self.end(s, how)
        what = 'request cut at %d of %d (%s)' % (k, len(whole), how)
        if how == 'shutdown':
            try:
                while s.recv(65536) != b'': pass
            except ConnectionError: pass
            except socket.timeout: ctx.fail('the server waits forever after its peer ended the connection', what)
            s.close()
        if first: self.released(conn, what)
        self.quiet(what)
        ev = self.srv.ask('events')
        ctx.check(len([e for e in ev if e[:2] == ('got', conn) and e[2] == 0]) == (1 if first else 0), 'harness: first request')
        if read in ('all', 'chunks', 'get_json'):
            ctx.check(not [e for e in ev if e[:3] == ('got', conn, 1)], 'a request that was cut short is taken for a complete one', (what, ev[-3:]))
        if k < len(pre): ctx.check(not [e for e in ev if e[:3] == ('begin', conn, 1)], 'a request of which the headers were cut short is handled', what)
        self.srv.ask('caps', 0, 0, 1)
        ctx.count('cut_requests'); ctx.count('cut_in_preamble' if k < len(pre) else 'cut_in_body')
        ctx.evaluated(('cut request', where, how, read, first, k.bit_length()))

    def garbage(self):
        """ what is no request must not wedge the server """
        ctx = self.ctx; rng = self.rng
        data = rng.choice([b'\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'POST\r\n\r\n', b'POST /x HTTP/1.1\r\n\r\n', b'POST /x HTTP/1.1\r\nContent-Length: x\r\n\r\n', b'POST /x HTTP/1.1\r\nnocolon\r\n\r\n', b'\xff\xfe\r\n\r\n', b'POST /x HTTP/1.1\r\nContent-Length: 5\r\nx-plan: {\r\n\r\nabcde', b'\x16\x03\x01\x02\x00\x01\x00\r\n\r\n'])
        ctx.note('garbage', data)
        s = self.raw(); s.sendall(data); s.shutdown(socket.SHUT_WR)
        try:
            while s.recv(65536) != b'': pass
        except ConnectionError: pass
        except socket.timeout: ctx.fail('the server waits forever on what is no request', data)
        s.close(); self.quiet('after what is no request')
        ctx.evaluated(('garbage', data[:30]))

    def receiver_gone(self):
        """ the client disappears while a reply is under way """
        ctx = self.ctx; rng = self.rng
        conn = self.newconn()
        size = rng.choice([8_000_000, 12_000_000])
        reply = ['digits', 3, size]
        if rng.random() < 0.5:
            p = self.file + '.big'
            with open(p, 'wb') as f: f.write(pattern(*reply))
            reply = ['file', p]
        how = rng.choice(['close', 'reset'])
        s = self.raw(4096)
        s.sendall(self.raw_request(conn, 0, 'all', reply, 3) + b'abc')
        n = rng.choice([0, 1, 1000, 100000]); got = 0
        while got < n: got += len(s.recv(n - got))
        ctx.note('receiver gone', reply[0], how, n)
        time.sleep(rng.choice([0, 0.05]))
        self.end(s, how)
        self.released(conn, 'while sending a reply'); self.quiet('while sending a reply')
        ctx.count('receiver_gone'); ctx.evaluated(('gone', reply[0], how, n))

    def silent(self):
        """ peers which vanish without ending their connections """
        ctx = self.ctx; rng = self.rng
        self.srv.ask('patience', 100)
        socks = []; conns = []
        for kind in ('idle', 'preamble', 'body', 'reading'):
            conn = self.newconn(); s = self.raw(4096)
            p = self.raw_request(conn, 0, 'all', ['digits', 2, 30 if kind != 'reading' else 12_000_000], 3)
            s.sendall(p + b'abc')
            if kind != 'reading':
                w = Wire(self.srv.addr); w.s = s; w.read_reply()
                if kind == 'preamble': s.sendall(p[:rng.randrange(1, len(p))])
                if kind == 'body': s.sendall(p[:0] + self.raw_request(conn, 1, rng.choice(['all', 'none']), ['digits', 1, 1], 100) + b'x' * rng.randrange(100))
            socks.append(s); conns.append((conn, kind))
        for conn, kind in conns:
            self.released(conn, 'a peer that fell silent (%s)' % kind)
            ctx.count('silent_peers'); ctx.evaluated(('silent', kind))
        for s in socks: s.close()
        self.srv.ask('patience', 0)
        self.quiet('after silent peers')

    def cut_reply(self, tls = False):
        """ a server that vanishes at a byte position of a reply """
        ctx = self.ctx; rng = self.rng
        before = rng.choice([0, 0, 1, 3])
        size = rng.choice([0, 1, 2, 50, 5000, 70000, 1000001])
        kind = rng.choice(['json', 'gen', 'file'])
        reqs = []; replies = []
        for i in range(before + 1):
            b = pattern(rng.choice(['random', 'breaks', 'json']), i, size if i == before else rng.choice([0, 10, 3000]))
            pre = b'HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\nContent-Length: %d\r\nstatus: ok\r\ny-r1: %d\r\n\r\n' % (len(b), i)
            q = {'kind' : kind, 'id' : 'f', 'url' : 'x', 'headers' : {'x-h' : 'v'}, 'data' : {'a' : 'b' * rng.choice([1, 3000])}}
            if kind == 'file':
                q['path'] = self.upload + '.f'
                with open(q['path'], 'wb') as f: f.write(b'u' * rng.choice([0, 10, 100000]))
            reqs.append(q); replies.append((pre, b))
        pre, body = replies[-1]; whole = pre + body
        where = rng.choice(['request', 'none', 'preamble', 'edge', 'body', 'body', 'last', 'whole'])
        k = {'request' : 0, 'none' : 0, 'preamble' : rng.randrange(1, len(pre)), 'edge' : len(pre) - rng.choice([1, 2, 3, 4] + ([0] if body else [])), 'body' : len(pre) + (rng.randrange(0, size) if size else -1), 'last' : len(whole) - 1, 'whole' : len(whole)}[where]
        how = rng.choice(['close', 'reset', 'shutdown']) if where != 'whole' else rng.choice(['keep', 'close'])
        ctx.note('cut reply', where, k, 'of', len(whole), how, kind, 'tls' if tls else '', 'after', before)
        fake = Fake(self, replies, where, k, how, tls)
        caps = (0, self.caps(len(whole))[1], 5)
        t0 = time.monotonic()
        res = client('%s://%s:%d' % (('https' if tls else 'http',) + fake.addr), [reqs], caps, ctx.dir + '/out')
        fake.close()
        what = 'reply of %d bytes cut at %d (%s)' % (len(whole), k, how)
        ctx.check(res[0] != 'died', 'the client spins on a connection that ended', (what, res))
        ctx.check(res[0] != 'hang', 'the client waits forever' + (' for more than the whole reply' if where == 'whole' else ' on a connection that ended'), (what, kind))
        ctx.check(res[0] == 'ok', 'harness', res)
        out = res[1][0]
        for i in range(before):
            ctx.check(len(out) > i and out[i][0] == 'ok' and out[i][2] == digest(replies[i][1]) and out[i][3].get('y-r1') == str(i), 'a complete reply was not delivered', (i, out))
        ctx.check(len(out) == before + 1, 'harness', out)
        last = out[-1]
        if where == 'whole': 
            if how == 'keep' or last[0] == 'ok': ctx.check(last[0] == 'ok' and last[2] == digest(body), 'a complete reply was not delivered', last)
        else: ctx.check(last[0] == 'exc', 'a reply that was cut short is taken for a complete one', (what, last))
        ctx.count('cut_replies'); ctx.count('cut_reply_in_preamble' if k < len(pre) else 'cut_reply_in_body')
        if tls: ctx.count('tls_cut_replies')
        ctx.evaluated(('cut reply', where, how, kind, tls, before > 0, k.bit_length()))

    def changing_file(self):
        """ a file gets shorter or longer while the client sends it """
        ctx = self.ctx; rng = self.rng
        conn = self.newconn()
        size = rng.choice([9_000_000, 14_000_000])
        data = pattern('digits', conn, size)
        p = self.upload + '.c'
        with open(p, 'wb') as f: f.write(data)
        to = rng.choice(['truncate', 'grow', 'empty', 'same'])
        pl = {'conn' : conn, 'n' : 0, 'read' : 'chunks', 'chunk' : 1000000, 'wait' : True, 'reply' : ['digits', 1, 10], 'headers' : {}}
        q = {'kind' : 'file', 'id' : 'c', 'url' : 'x', 'headers' : {'x-plan' : json.dumps(pl)}, 'path' : p}
        q2 = {'kind' : 'json', 'id' : 'c', 'url' : 'x', 'headers' : {'x-plan' : json.dumps(dict(pl, n = 1, read = 'all', wait = False))}, 'data' : {'z' : 1}}
        def change():
            self.wait(lambda ev: any(e[:2] == ('begin', conn) for e in ev))
            time.sleep(0.15) # the buffers of the connection fill
            if to == 'grow':
                with open(p, 'ab') as f: f.write(b'GROWN' * 1000)
            elif to in ('truncate', 'empty'): os.truncate(p, 10 if to == 'truncate' else 0)
            self.srv.ask('go', conn)
        pid = aside(change) # uses the control connection alone meanwhile
        res = client(self.url, [[q, q2]], (0, 0, 1), ctx.dir + '/out', timeout = 80)
        os.waitpid(pid, 0)
        ctx.note('changing file', to, res)
        ctx.check(res[0] == 'ok', 'the client hangs, spins or dies when the file it sends changes', (to, res))
        out = res[1][0]
        self.released(conn, 'file changing')
        ev = self.srv.ask('events')
        got = [e for e in ev if e[:3] == ('got', conn, 0)]
        if to in ('grow', 'same'):
            ctx.check(out[0][0] == 'ok' and out[1][0] == 'ok', 'a file that grows while it is sent breaks the connection', out)
            ctx.check(got and got[0][4] == (size, digest(data)), 'a file that grows while it is sent is not received with the announced length', got)
        elif got: ctx.check(got[0][4] == (size, digest(data)) and out[0][0] == 'ok', 'a file that got shorter while it was sent is received as complete', got)
        else: ctx.check(out[0][0] == 'exc', 'a file that got shorter while it was sent counts as sent', out)
        ctx.count({'grow' : 'file_grown', 'same' : 'file_same'}.get(to, 'file_truncated'))
        ctx.evaluated(('changing', to, bool(got)))
        self.quiet('file changing')

# ============================================================================= raw peers
def tls_context():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(HOME + '/data/tls.crt', HOME + '/data/tls.key')
    return c

def aside(fn):
    sys.stdout.flush()
    pid = os.fork()
    if pid: return pid
    try: core.pdeathsig(); fn()
    finally: os._exit(0)

def gone(pid):
    try: os.kill(pid, 9)
    except ProcessLookupError: pass
    os.waitpid(pid, 0)

class Fake:
    """ a server of one connection, in a thread """
    def __init__(self, scen, replies, where, k, how, tls):
        self.rng = core.make_rng(scen.rng.getrandbits(60))
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((scen.srv.addr[0], 0)); self.l.listen(5); self.l.settimeout(SLOW)
        self.addr = self.l.getsockname()
        self.args = (replies, where, k, how, tls)
        self.pid = aside(self.run) # no threads next to forks

    def run(self):
        replies, where, k, how, tls = self.args
        try:
            s, _ = self.l.accept()
            raw = s
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); s.settimeout(SLOW)
            if tls: s = tls_context().wrap_socket(s, server_side = True, suppress_ragged_eofs = True)
            for i, (pre, body) in enumerate(replies):
                last = i == len(replies) - 1
                data = b''
                while b'\r\n\r\n' not in data: data += self.more(s)
                if last and where == 'request': break
                head, rest = data.split(b'\r\n\r\n', 1)
                n = [int(l.split(b':')[1]) for l in head.split(b'\r\n')[1:] if l.lower().startswith(b'content-length:')][0]
                while len(rest) < n: rest += self.more(s)
                out = pre + body
                if last: out = out[:k]
                pos = 0
                while pos < len(out):
                    c = self.rng.choice([len(out), 1, 17, 1024, 5000]); s.sendall(out[pos:pos + c]); pos += c
                    if self.rng.random() < 0.1: time.sleep(0.001)
            if how == 'keep': time.sleep(SLOW * 3); return
            if how == 'reset':
                raw = socket.socket(fileno = s.detach()) if not tls else s
                raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); raw.close()
            elif how == 'shutdown':
                raw.shutdown(socket.SHUT_WR) if not tls else s.unwrap(); time.sleep(SLOW * 3)
            else: s.close()
        except (OSError, EOFError, ssl.SSLError): pass

    def more(self, s):
        d = s.recv(65536)
        if d == b'': raise EOFError()
        return d

    def close(self):
        self.l.close(); gone(self.pid)

class Proxy:
    """ ends TLS in front of the server """
    def __init__(self, scen):
        self.to = scen.srv.addr
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((self.to[0], 0)); self.l.listen(10); self.addr = self.l.getsockname()
        self.pid = aside(self.run)

    def run(self):
        c = tls_context()
        while True:
            try: s, _ = self.l.accept()
            except OSError: return
            threading.Thread(target = self.one, args = (c, s), daemon = True).start()

    def one(self, c, s):
        try:
            s = c.wrap_socket(s, server_side = True)
            u = socket.socket(); u.connect(self.to); u.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            # request by request: one direction at a time, as one TLS object is not for two threads
            import select
            s.setblocking(True)
            while True:
                if not s.pending(): r, _, _ = select.select([s, u], [], [])
                else: r = [s]
                if s in r:
                    d = s.recv(16384)
                    if d == b'': break
                    u.sendall(d)
                if u in r:
                    d = u.recv(10000)
                    if d == b'': break
                    s.sendall(d)
        except OSError: pass
        for x in (s, u):
            try: x.close()
            except OSError: pass

    def close(self): self.l.close(); gone(self.pid)

def case(ctx):
    rng = ctx.rng
    s = Scen(ctx)
    todo = ['exact'] * 4 + ['tls'] * 2 + ['odd', 'garbage'] + ['cut_request'] * 10 + ['cut_reply'] * 8 + ['tls_cut'] * 3
    if ctx.index % 4 == 0: todo += ['gone', 'gone']
    if ctx.index % 4 == 1: todo += ['changing', 'changing']
    if ctx.index % 8 == 2: todo.append('silent')
    rng.shuffle(todo)
    for t in todo:
        if t == 'exact': s.exact()
        elif t == 'tls': s.exact(True)
        elif t == 'odd': s.odd_header()
        elif t == 'garbage': s.garbage()
        elif t == 'cut_request': s.cut_request()
        elif t == 'cut_reply': s.cut_reply()
        elif t == 'tls_cut': s.cut_reply(True)
        elif t == 'gone': s.receiver_gone()
        elif t == 'changing': s.changing_file()
        else: s.silent()
    ctx.sample({'connections' : s.conns, 'events' : len(s.srv.ask('events'))})
