""" An independent client for the wire protocol: raw sockets, own parsing, own signing. """
import socket, json, base64, hashlib
import pysodium

class WireError(Exception):
    """ the connection broke or what arrived is not a reply """
    slow = property(lambda s: 'timed out' in str(s) or 'TimeoutError' in str(s))

def sha(data): return hashlib.sha256(data).hexdigest()

class Wire:
    def __init__(self, addr, src = None, timeout = 30):
        self.addr = addr; self.src = src; self.timeout = timeout
        self.s = None; self.session = None; self.repo = None; self.buf = b''

    # ------------------------------------------------ transport
    def connect(self):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.settimeout(self.timeout)
        if self.src is not None: s.bind((self.src, 0))
        s.connect(self.addr)
        self.s = s; self.buf = b''
        return self

    def close(self):
        if self.s is not None:
            try: self.s.close()
            except OSError: pass
        self.s = None

    def send_raw(self, data):
        try: self.s.sendall(data)
        except OSError as e: raise WireError('send: ' + repr(e))

    @staticmethod
    def preamble(action, headers, length):
        out = b'POST /' + action.encode() + b' HTTP/1.1\r\nContent-length: ' + str(length).encode() + b'\r\n'
        for k, v in headers.items():
            out += k.encode() + b': ' + (v if isinstance(v, bytes) else str(v).encode('utf8')) + b'\r\n'
        return out + b'\r\n'

    def read_reply(self):
        def more():
            try: d = self.s.recv(65536)
            except OSError as e: raise WireError('recv: ' + repr(e))
            if d == b'': raise WireError('closed')
            self.buf += d
        while b'\r\n\r\n' not in self.buf: more()
        pre, self.buf = self.buf.split(b'\r\n\r\n', 1)
        lines = pre.split(b'\r\n')
        headers = {}
        for line in lines[1:]:
            k, v = line.split(b':', 1)
            headers[k.decode().strip().lower()] = (v[1:] if v[:1] == b' ' else v).decode('utf8')
        n = int(headers['content-length'])
        while len(self.buf) < n: more()
        body, self.buf = self.buf[:n], self.buf[n:]
        return headers, body

    def req(self, action, headers, body = b''):
        if self.s is None: self.connect()
        self.send_raw(self.preamble(action, headers, len(body)) + body)
        return self.read_reply()

    # ------------------------------------------------ protocol
    def begin_auth(self, repo):
        return self.req('begin_auth', {'repository' : repo}, b'{}')[0]

    # pysodium signs the wide characters in memory if it gets a text, which is what client and
    # server do; the other style is tried as well, so that either is accepted as the protocol
    style = 'text'

    @classmethod
    def sign(cls, key, token, style = None):
        style = style or cls.style
        return base64.b64encode(pysodium.crypto_sign_detached(token if style == 'text' else token.encode(), key))

    def redeem(self, repo, user, token, signature):
        return self.req('authenticate', {'client_version' : '3', 'auth_token' : token, 'signature' : signature,
                                         'user' : user, 'repository' : repo}, b'{}')[0]

    def login(self, repo, user, key):
        """ key: raw 64 byte secret key. True if a session was opened """
        for style in (Wire.style, 'bytes' if Wire.style == 'text' else 'text'):
            h = self.begin_auth(repo)
            if h['status'] != 'ok': return False
            h2 = self.redeem(repo, user, h['auth_token'], self.sign(key, h['auth_token'], style))
            if h2['status'] == 'ok':
                Wire.style = style
                self.session = h2['session_token']; self.repo = repo
                return True
        return False

    def base(self, **kw):
        h = {'session_token' : self.session, 'repository' : self.repo}
        h.update(kw)
        return h

    def list_versions(self):
        h, b = self.req('list_versions', self.base(), b'{}')
        return json.loads(b)['versions'] if h['status'] == 'ok' else None

    def get_head(self):
        h, b = self.req('find_changed', self.base(previous_revision = 'root', include_unchanged = '0'),
                        json.dumps({'client_changes' : '{}'}).encode())
        if h['status'] != 'ok': raise WireError('find_changed refused: ' + h.get('msg', ''))
        return json.loads(b)['head']

    def find_changed(self, since, client_changes = None, unchanged = False):
        h, b = self.req('find_changed', self.base(previous_revision = since, include_unchanged = str(int(unchanged))),
                        json.dumps({'client_changes' : json.dumps(client_changes or {})}).encode())
        return h, (json.loads(b) if h['status'] == 'ok' else None)

    def list_files(self, rev = None):
        h, b = self.req('list_files', self.base(show_head = str(int(rev is None)), version_id = rev or ''), b'{}')
        return json.loads(b)['files'] if h['status'] == 'ok' else None

    def list_changes(self, rev = None):
        h, b = self.req('list_changes', self.base(show_head = str(int(rev is None)), version_id = rev or ''), b'{}')
        return json.loads(b)['changes'] if h['status'] == 'ok' else None

    def pull(self, path, rev = None):
        h, b = self.req('pull_file', self.base(path = path, use_head = str(int(rev is None)), version_id = rev or ''), b'{}')
        return (h, b) if h['status'] == 'ok' else (h, None)

    def begin(self, head):
        h, b = self.req('begin_commit', self.base(user = '', previous_revision = head), b'{}')
        return h, (json.loads(b)['partial_commit'] if h['status'] == 'ok' else None)

    def push(self, path, data):
        return self.req('push_file', self.base(path = path), data)[0]

    def delete(self, paths):
        files = [{'path' : p} if isinstance(p, str) else p for p in paths]
        return self.req('delete_files', self.base(), json.dumps({'files' : json.dumps(files)}).encode())[0]

    def commit(self, msg = '', mode = 'commit'):
        return self.req('commit', self.base(commit_message = msg, mode = mode), b'{}')[0]

    def abort(self): return self.commit('', 'abort')
