From 0cb2ab66ffce78a442d49567dc8587e8c44e31e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 01/71] fix: merging nested server configuration fails on
 python 3.10 and later

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..6b39d2a 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From 51ffab61388523a75c4bca5f8c8e07fb778907bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 02/71] fix: password protected private keys are never unlocked

---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..9dd4fb3 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[0:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 6c46705646fbc3c867a3f763239218ae7bf7dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 03/71] fix: endless loop when a connection is closed inside a
 request or reply header

---
 bversion/http/http_client.py | 4 +++-
 bversion/http/http_server.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..daea97d 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            received = self.s.recv(1024)
+            if received == b'': raise Exception('Socket closed')
+            data += received
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..bc92e7a 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    received = c.recv(1024)
+                    if received == b'': raise Exception('Socket closed')
+                    data += received
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
-- 
2.43.0


From 013cd875eed081b367c4f7e05a5ce592b0027374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 04/71] fix: data lost when a socket accepts only part of what
 is sent

---
 bversion/http/http_client.py | 2 +-
 bversion/http/http_server.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index daea97d..d6f0c08 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index bc92e7a..c31a8e1 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -98,7 +98,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -107,7 +107,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From 8bbd6320e9383d6a873a05948f1410fd2129daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 05/71] fix: white space and line breaks in header values
 change file names and messages

---
 bversion/http/http_common.py | 8 +++++++-
 bversion/http/http_server.py | 8 ++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..55364d6 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -8,6 +8,9 @@ def generate_headers(headers: Dict[str, str]) -> bytes:
         k2 = k.encode('utf8') if isinstance(k, str) else k
         v2 = v.encode('utf8') if isinstance(v, str) else v
 
+        # such a value would be received as something else
+        if b'\r\n' in k2 + b': ' + v2: raise ValueError('Headers cannot contain line breaks')
+
         res += k2 + b': ' + v2 + b'\r\n'
     return res
 
@@ -16,7 +19,10 @@ def parse_headers(headers_raw: List[bytes]) -> Dict[str, str]:
     headers = {}
     for i in headers_raw:
         split_header = i.split(b':', 1)
-        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
+
+        # Only remove the separator, as any other white space is part of the value
+        value = split_header[1][1:] if split_header[1][:1] == b' ' else split_header[1]
+        headers[split_header[0].strip().decode('utf8').lower()] = value.decode('utf8')
 
     return headers
 
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index c31a8e1..4ea05f5 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -5,7 +5,7 @@ from io import BytesIO
 from typing import Union
 import _thread
 
-from bversion.http.http_common import read_body, parse_http_request_preamble
+from bversion.http.http_common import read_body, generate_headers, parse_http_request_preamble
 
 #=====================
 class ConnectionContext:
@@ -92,11 +92,7 @@ def HTTPServer(host, port, connection_handler):
 
                 responce_headers += b"Content-Length: " + bytes(str(responce_content_length), encoding='utf8') + b'\r\n'
 
-                for k, v in rsp.headers.items():
-                    if isinstance(k, str): k=k.encode('utf8')
-                    if isinstance(v, str): v=v.encode('utf8')
-                    responce_headers += k + b':' + v + b'\r\n'
-
+                responce_headers += generate_headers(rsp.headers)
                 responce_headers += b"\r\n"
                 c.sendall(responce_headers)
 
-- 
2.43.0


From 4f7b309309b3b43879b022a5f465755e1260643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 06/71] fix: https connections fail on python 3.12 and later

---
 bversion/http/http_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index d6f0c08..61b272c 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -11,7 +11,12 @@ class HTTPClient:
     def connect(self, host: str, port: int, tls: bool = False):
         self.s = socket.socket(socket.AF_INET,socket.SOCK_STREAM)
 
-        if tls: self.s = ssl.wrap_socket(self.s, ssl_version=ssl.PROTOCOL_TLS)
+        if tls:
+            # ssl.wrap_socket was removed in python 3.12, this is its equivalent
+            tls_context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
+            tls_context.check_hostname = False
+            tls_context.verify_mode    = ssl.CERT_NONE
+            self.s = tls_context.wrap_socket(self.s)
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-- 
2.43.0


From 454fa0e9d75a48ce56345b473687dd35af2ed29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 07/71] fix: connection gets out of step when a file changes
 size while it is being sent

---
 bversion/http/client_http_request.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bversion/http/client_http_request.py b/bversion/http/client_http_request.py
index ab4cd9d..ac8fbd8 100644
--- a/bversion/http/client_http_request.py
+++ b/bversion/http/client_http_request.py
@@ -60,15 +60,20 @@ class client_http_request:
 
 ############################################################################################
     def send_file(self, url, headers, file_path):
-        size = os.stat(file_path).st_size
+        with open(file_path, 'rb') as f:
+            remaining = os.fstat(f.fileno()).st_size
 
-        conn = self.begin(url, size, headers, content_type = 'application/octet-stream')
+            conn = self.begin(url, remaining, headers, content_type = 'application/octet-stream')
 
-        with open(file_path, 'rb') as f:
-            while True:
-                chunk = f.read(1000 * 1000)
-                if chunk == b'': break
+            # The file may be changed while it is being sent, what is sent
+            # has to match the announced length in any case
+            while remaining > 0:
+                chunk = f.read(min(remaining, 1000 * 1000))
+                if chunk == b'':
+                    conn.close()
+                    raise Exception('File was truncated while sending it: ' + file_path)
                 conn.send(chunk)
+                remaining -= len(chunk)
 
         parsed_preamble, body = conn.read_responce()
         return body.read_all(), parsed_preamble['headers']
-- 
2.43.0


From 6e1d62ab8c9dfe0bdb64d82d181403b015d02992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 08/71] fix: commit lock of one repository allows changes to
 all others

---
 bversion/server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index c815333..ca676d5 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -406,9 +406,10 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        # The lock only allows changes to the repository it was acquired for
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock == repository:
                 data_store.unlock()
                 context.lock = False
 
@@ -461,7 +462,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -505,7 +506,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -541,7 +542,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From fbc2a3c5f7ca1c8e6756ecb33a8bd3ad913d314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 09/71] fix: repository stays locked after a commit is refused
 for being outdated

---
 bversion/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bversion/server.py b/bversion/server.py
index ca676d5..30d2149 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -421,6 +421,7 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # handled by the client, and a server interface for this is not needed.
     if data_store.get_head() != request.headers["previous_revision"]:
         if data_store.get_active_commit() is not None: data_store.rollback()
+        unlock()
         return fail(need_to_update_msg)
 
     # if the last active commit was by the same user and ip, get the partial committed files
-- 
2.43.0


From 5588177f218671b3ad6de6e5c6b64cb0f883b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 10/71] fix: partial commits can be taken over by claiming
 another user name

---
 bversion/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 30d2149..b5f36d2 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -431,17 +431,17 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From 50f13575716805f318844f7fe3430ecc562d05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 11/71] fix: existing sessions cannot be resumed, and trying to
 ends that of a running commit

---
 bversion/server.py            | 2 +-
 bversion/storage/server_db.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index b5f36d2..14924df 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -133,7 +133,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
     # Allow resume of an existing session
     if 'session_token' in request.headers:
-        session_token = request.headers['session_token']
+        session_token = request.headers['session_token'].encode('utf8')
 
         if sdb.validate_session(session_token, client_ip) != []:
             return success({
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..09e38c6 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -179,11 +179,10 @@ class server_db:
 
 
     #===============================================================================
-    def validate_session(self, session_token : str, client_ip : str):
-        self.con.execute("delete from session_tokens where expires < ?", (time.time(),))
-        self.con.commit()
-
-        res = self.con.execute("select * from session_tokens where token = ? and ip = ?", (session_token, client_ip)).fetchall()
+    def validate_session(self, session_token : bytes, client_ip : str):
+        # Expired sessions are not deleted here, as one of them may own the active commit
+        res = self.con.execute("select * from session_tokens where token = ? and ip = ? and expires >= ?",
+                               (session_token, client_ip, time.time())).fetchall()
         return res
 
 
-- 
2.43.0


From 699ee995ef917b127fedc9ddcd2f64c7f4e8ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 12/71] fix: one authentication token can open several sessions
 at the same time

---
 bversion/server.py            | 4 +++-
 bversion/storage/server_db.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 14924df..13e9343 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -167,7 +167,9 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
             # Everything OK, clean up transient token and
             # generate a session token for the client
-            sdb.delete_token(auth_token)
+            # The token may have been used by another connection since it was read
+            if sdb.delete_token(auth_token) != 1:
+                return fail(user_auth_fail_msg)
 
             session_token = sdb.create_session(extend_session_duration, client_ip, user)
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 09e38c6..0f192d7 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -131,9 +131,11 @@ class server_db:
 
     #===============================================================================
     def delete_token(self, auth_token):
-        self.con.execute("delete from tokens where token = ?", (auth_token,))
+        res = self.con.execute("delete from tokens where token = ?", (auth_token,))
         self.con.commit()
 
+        return res.rowcount
+
 
     #===============================================================================
     def gc_tokens(self):
-- 
2.43.0


From 7e8027d2aebe912d09c8a6cb83b33cf621567a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 13/71] fix: asking for an unknown revision or path ends the
 connection without a reply

---
 bversion/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 13e9343..5b08d4d 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -246,7 +246,8 @@ def find_changed(request: Request, context: ConnectionContext) -> Responce: # py
 
     # Find changed items
     client_changes = json.loads(body_data['client_changes'])
-    server_changes = data_store.get_changes_since(request.headers["previous_revision"], head)
+    try: server_changes = data_store.get_changes_since(request.headers["previous_revision"], head)
+    except IOError: return fail('Invalid object hash')
 
     # Figure out which files have not been changed
     if bool(int(request.headers['include_unchanged'])):
@@ -300,7 +301,8 @@ def pull_file(request: Request, context: ConnectionContext) -> Responce: # pylin
 
 
     # =============
-    file_info = data_store.get_file_info_from_path(request.headers['path'], version_id = version_id)
+    try: file_info = data_store.get_file_info_from_path(request.headers['path'], version_id = version_id)
+    except IOError: return fail('No such file or revision')
 
     full_file_path: str = cpjoin(data_store.get_file_directory_path(file_info['hash']), file_info['hash'][2:])
     return success({'file_info_json' : json.dumps(file_info)}, ServeFile(full_file_path))
-- 
2.43.0


From 476da98459bee8d2dc477e050b92006c477010c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 14/71] fix: commits can contain paths of the private files of
 working copies

---
 bversion/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index 5b08d4d..bfaf52f 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -480,6 +480,12 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     file_path = request.headers['path']
     if any(True for item in re.split(r'\\|/', file_path) if item in ['..', '.']): return fail()
 
+    # Only full paths which clients store under this exact name are valid, and
+    # never those of the private files of working copies
+    path_items = file_path.split('/')
+    if path_items[0] != '' or '' in path_items[1:] or len(path_items) < 2 or '\0' in file_path: return fail()
+    if path_items[1] in ['.bvn', '.bvn_pull_ignore', '.shttpfs', '.shttpfs_pull_ignore']: return fail()
+
     #===
     tmp_path = cpjoin(repository_path, 'tmp_file')
     with open(tmp_path, 'wb') as f:
-- 
2.43.0


From eb433a0e38ebd10a2383bab5cc4393fbba04d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 15/71] fix: a file cannot be sent again in a commit it was
 already sent in

---
 bversion/storage/server_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 0f192d7..a7f37b5 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -241,7 +241,8 @@ class server_db:
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
         # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        # If something was already recorded for this path, this replaces it
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
-- 
2.43.0


From 0cc78a8edf6a43ab95fb74d2aacca622b203ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 16/71] fix: deleting an unknown or newly sent path drops all
 further deletions or blocks the commit

---
 bversion/storage/server_db.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index a7f37b5..d7053ce 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -253,25 +253,23 @@ class server_db:
     #===============================================================================
     def remove_from_commit(self, files):
 
-        for it in files:
-            file_path = it['path']
+        with self.con: # nothing is changed if the list turns out to be invalid
+            for it in files:
+                file_path = it['path']
 
-            # We don't need to do anything if the file doesnt exist
-            the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
-            file_info = the_file[0]
+                # Anything sent for this path earlier in this commit is no longer wanted
+                self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
 
-            # Update commit changes
-            already_deleted = self.con.execute("select * from active_commit_changes where status='deleted' and path = ?",
-                                            (file_info['path'],)).fetchall()
+                # We don't need to do anything else if the file doesnt exist
+                the_file = self.file_exists_in_commit(file_path)
+                if the_file == []: continue
+                file_info = the_file[0]
 
-            if already_deleted == []:
+                # Update commit changes
                 file_info['status'] = 'deleted'
                 self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
                                 (file_info['hash'], file_info['path'], file_info['status']))
 
-        self.con.commit()
-
     #===============================================================================
     def get_active_commit_changes(self):
         return self.con.execute("select * from active_commit_changes").fetchall()
-- 
2.43.0


From 1c56ed2823e82f7ea4a454db6473645a1bc086d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 17/71] fix: files deleted before a commit was interrupted are
 deleted even if they were restored

---
 bversion/storage/server_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index d7053ce..025bbbf 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -221,6 +221,9 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # The client always sends its deletions again, and some of the files may be back by now
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From a3ca217748495a8164d95ccf759261745ba74507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 18/71] fix: published revision is destroyed when a resumed
 commit is interrupted before its clean up

---
 bversion/storage/versioned_storage.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..ec3236b 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -306,6 +306,16 @@ class versioned_storage:
         return commit_object_hash
 
 
+#===============================================================================
+    def active_commit_is_head(self) -> bool:
+        """ Checks if the active commit was published but not cleaned up. If it was resumed, there may
+        be commit objects from prior attempts as well as the published one. """
+
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        head = self.get_head()
+        return any(item['item_type'] == 'commit' and item['item_hash'] == head for item in sdb.get_gc_log())
+
+
 #===============================================================================
     def rollback(self) -> None:
         if self.get_active_commit() is None: raise Exception()
@@ -316,8 +326,7 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            if self.active_commit_is_head():
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From e4a6b934280fe9ea288d24f46045c54de4ef679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 19/71] fix: a commit that was already published can be resumed

---
 bversion/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index bfaf52f..dbfd5d0 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -432,6 +432,11 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     # and send them back to allow resume, otherwise do rollback if needed.
     active_commit = data_store.get_active_commit()
 
+    # The last commit may have been published but not cleaned up, it must not be resumed
+    if active_commit is not None and data_store.active_commit_is_head():
+        data_store.rollback()
+        active_commit = None
+
     commit_files = {}
 
     if active_commit is not None:
-- 
2.43.0


From 0d2cb8d0839d6cacb4b0fb8975657700acef4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 20/71] fix: resuming after an interrupted roll back publishes
 files that no longer exist

---
 bversion/storage/server_db.py         | 6 ++++++
 bversion/storage/versioned_storage.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 025bbbf..ede8f23 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -295,6 +295,12 @@ class server_db:
         return current_changes, self.active_files
 
 
+    #===============================================================================
+    def clear_active_commit_changes(self):
+        self.con.execute("delete from active_commit_changes")
+        self.con.commit()
+
+
     #===============================================================================
     def clean_commit_state(self):
         self.active_files = None
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index ec3236b..42f79ca 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -330,6 +330,9 @@ class versioned_storage:
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
+                # If this gets interrupted, the files it deleted must not be seen as part of the commit
+                sdb.clear_active_commit_changes()
+
                 for item in gc_log_items:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
-- 
2.43.0


From 1deacf58b3b8bb259573f5a664878d88021c23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 21/71] fix: a commit without changes stays active

---
 bversion/storage/versioned_storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 42f79ca..a7379e3 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -265,7 +265,9 @@ class versioned_storage:
         sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
         current_changes, active_files = sdb.get_commit_state()
 
-        if current_changes == []: return self.get_head()
+        if current_changes == []:
+            self.rollback() # clean up working state, there may be files which were sent and then deleted
+            return self.get_head()
 
         # Create and store the file tree
         tree_root   = self.write_dir_tree(self.build_dir_tree(active_files))
-- 
2.43.0


From 2ae2bd2d8be07b1004296e13e892fe8d35164188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 22/71] fix: resumed commits publish files which were reverted,
 ignored, or sent by another working copy

---
 bversion/client.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..3c735e7 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -716,20 +716,38 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
     # Acquire the commit lock and check we still have the latest revision
     manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
 
+    def begin_commit():
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        return json.loads(body)['partial_commit']
+
+    previous_uploads = begin_commit()
+
+
+    # A partial commit may contain changes to existing files which this working copy no longer
+    # has, or never had if it was started in another one. The only way to drop these is to start again.
+    changed_here = {fle['path'] for lst in changes.values() for fle in lst}
+    if any(fle['status'] != 'new' and fle['path'] not in changed_here for fle in previous_uploads):
+        headers = server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : '',
+            'mode'           : 'abort'})[1] # Only care about headers
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+        previous_uploads = begin_commit()
 
 
     # If we are resuming a partial commit, handle the previously uploaded files
     # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
+    paths_to_push = {fle['path'] for fle in changes['client_push_files']}
 
     filtered_previous = {}
     if len(previous_uploads) != 0:
@@ -737,7 +755,7 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
             print('Checking file from partially complete commit: ' + fle['path'])
             local_path = cpjoin(config['data_dir'], fle['path'])
 
-            if not os.path.isfile(local_path):
+            if fle['path'] not in paths_to_push: # it is gone or ignored now
                 changes['to_delete_on_server'].append(fle)
 
             elif fle['hash'] == hash_file(local_path):
-- 
2.43.0


From b2b53482603ae5b0191afe4766b62d6dbe8c414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 23/71] fix: edits made to a file during a commit are never
 detected

---
 bversion/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 3c735e7..e842f22 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -11,7 +11,7 @@ import pysodium #type: ignore
 
 #=================================================
 from bversion.common import (cpjoin, get_file_list, find_manifest_changes, make_dirs_if_dont_exist,
-                             manifestFileDetails, get_single_file_info, file_or_default, question_user,
+                             manifestFileDetails, file_or_default, question_user,
                              file_put_contents, file_get_contents, ignore, find_bvn_dir, hash_file)
 
 from bversion.http.client_http_request import client_http_request
@@ -860,7 +860,9 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
+                # Use the time stamps from before sending the file, so that
+                # edits made since then will be detected as changes
+                file_info = client_changes[change['path']]
                 file_info['server_file_hash'] = change['file_info']['hash']
                 cdb.add_file_to_manifest(file_info)
 
-- 
2.43.0


From cd399cf4813905f2cebe5116ad62d16a7ce2624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 24/71] fix: no error is shown if the server refuses to finish
 a commit

---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index e842f22..e4f7e2e 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -870,6 +870,9 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
         return headers['head']
 
+    else:
+        raise SystemExit(headers['msg'])
+
 
 #===============================================================================
 def revert(session_token, args):
-- 
2.43.0


From 637157d018ba53f7e6fa563e702203f753f9a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 25/71] fix: working copy lock is released as soon as it was
 acquired

---
 bversion/client.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index e4f7e2e..f4faf36 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -41,10 +41,12 @@ server_connection: client_http_request         = None
 working_copy_base_path: str                    = ''
 relative_cwd: str                              = ''
 
+lock_file                                      = None
+
 
 #===============================================================================
 def init(unlocked = False):
-    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd
+    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd, lock_file
 
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
@@ -66,8 +68,10 @@ def init(unlocked = False):
 
     # Lock for sanity check, only one client can use the working copy at any time
     try:
-        lockfile = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
-        fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        # This must stay open, as closing the file releases the lock
+        if lock_file is not None: lock_file.close()
+        lock_file = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
+        fcntl.flock(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
     #-----------
-- 
2.43.0


From 1af34d9b043164a72d54d7ad782a8141a32c5d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 26/71] fix: files of an interrupted transaction are taken as
 local changes until the next update

---
 bversion/storage/journaling_filesystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..89a27fb 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -23,6 +23,11 @@ class journaling_filesystem:
         self.tmp_idx = 0
         self.active_transaction = False
 
+        # If the last transaction was interrupted it has to be rolled back before anything looks
+        # at the files, as those it was working on would be taken for being deleted or changed
+        if self.client_db.get_fs_journal() != []:
+            self.rollback()
+
 ############################################################################################
     def get_full_file_path(self, *args):
         """ make a path relative to DATA DIR from a system relative path """
-- 
2.43.0


From fe109f94739aef718d935bbe80d5728fc919e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 27/71] fix: roll back restores incomplete or outdated copies,
 with a new time stamp

---
 bversion/storage/journaling_filesystem.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 89a27fb..405f3df 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -54,6 +54,13 @@ class journaling_filesystem:
         file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
         return p.join(self.backup_dir, backup_name)
 
+############################################################################################
+    def clear_tmp_dir(self):
+        """ Delete all temp files """
+
+        for itm in os.listdir(self.tmp_dir):
+            os.remove(cpjoin(self.tmp_dir, itm))
+
 ############################################################################################
     def begin(self):
         """ Begin a transaction """
@@ -67,6 +74,9 @@ class journaling_filesystem:
         if self.active_transaction is True:
             raise Exception('Multiple Begin not allowed')
 
+        # Files left by a prior transaction must not be used to roll back this one
+        self.clear_tmp_dir()
+
         self.active_transaction = True
 
 ############################################################################################
@@ -80,7 +90,10 @@ class journaling_filesystem:
             self.client_db.commit()
 
         d = command['do']
-        if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
+        if   d[cmd] == 'copy':
+            # If a copy is interrupted, the incomplete file must not be used for roll back
+            shutil.copy2(d[src], d[dst] + '.part')
+            os.rename(d[dst] + '.part', d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
         elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
@@ -120,8 +133,7 @@ class journaling_filesystem:
         self.client_db.commit()
 
         # Clear out the tmp files as they are no longer needed
-        for itm in os.listdir(self.tmp_dir):
-            os.remove(cpjoin(self.tmp_dir, itm))
+        self.clear_tmp_dir()
 
         # ------------------
         self.active_transaction = False
-- 
2.43.0


From 532fa5b4d8cc16f35c6ba8ccf513d76b82ce9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 28/71] fix: working copy unusable after being interrupted
 while writing the backup index

---
 bversion/storage/journaling_filesystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 405f3df..d1534df 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -51,7 +51,9 @@ class journaling_filesystem:
         backup_name = str(backup_num) + "_" + os.path.basename(src)
         backup_num += 1
 
-        file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
+        # write plus move for atomicity, an empty file would prevent all further roll backs
+        file_put_contents(backup_id_file + '.new', bytes(str(backup_num), encoding='utf8'))
+        os.rename(backup_id_file + '.new', backup_id_file)
         return p.join(self.backup_dir, backup_name)
 
 ############################################################################################
-- 
2.43.0


From 7eb6b826626d4a243f65de471403c7836132b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 29/71] fix: files are lost when undoing a change fails during
 roll back

---
 bversion/storage/client_db.py             | 4 ++++
 bversion/storage/journaling_filesystem.py | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..db53c06 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -53,6 +53,10 @@ class client_db:
     def commit(self):
         self.con.commit()
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
 
 # ===================================================
 # Handling of system metadata
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index d1534df..e2805bd 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -106,11 +106,16 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Discard database changes that belong to this transaction
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
-            try: self.do_action({'do' : j_itm['data']}, write_journal = False)
-            except IOError: pass
+            # If there is nothing to undo from, the action was not done, or its undo already was
+            if os.path.exists(j_itm['data'][1]):
+                if j_itm['data'][0] == 'move': ignore(os.makedirs, os.path.dirname(j_itm['data'][2]))
+                self.do_action({'do' : j_itm['data']}, write_journal = False)
 
             # As each item is completed remove it from the journal. In case
             # something fails during the rollback we can pick up where it stopped.
-- 
2.43.0


From d45f6f47e651bc6d84d29a51e4906296081a6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 30/71] fix: undoing a failed or interrupted move or write
 moves the wrong files

---
 bversion/storage/journaling_filesystem.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index e2805bd..a872dfe 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -159,6 +159,9 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
+        # If this cannot be done, nothing must be recorded, as undoing it would move the directory
+        if os.path.isdir(path): raise OSError(errno.EISDIR, 'Is a directory', path)
+
         # if file exists, create a temp copy to allow rollback
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
@@ -176,14 +179,17 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
-        # record where file moved
-        if os.path.isfile(src):
-            # if destination file exists, copy it to tmp first
-            if os.path.isfile(dst):
-                tmp_path = self.new_tmp()
-                self.do_action({
-                    'do'   : ['copy', dst, tmp_path],
-                    'undo' : ['move', tmp_path, dst]})
+        # If this cannot be done, nothing must be recorded, as undoing it would move other files
+        if not os.path.exists(src): raise OSError(errno.ENOENT, 'No such file or directory', src)
+        if os.path.isdir(dst): raise OSError(errno.EISDIR, 'Is a directory', dst)
+
+        # if destination file exists, move it to tmp first. There must be nothing at the
+        # destination, as undoing the move below would put it in place of the source file.
+        if os.path.isfile(dst):
+            tmp_path = self.new_tmp()
+            self.do_action({
+                'do'   : ['move', dst, tmp_path],
+                'undo' : ['move', tmp_path, dst]})
 
         self.do_action(
             {'do'   : ['move', src, dst],
-- 
2.43.0


From 0fcaaf893b340123d006601e8c8181611391b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 31/71] fix: garbage collection deletes nothing, crashes and
 can stay locked

It looked for missing objects instead of unreachable ones, looked for files
in the wrong directory and returned a single value where two are expected.
Objects used by a commit that can still be resumed are kept.
---
 bversion/storage/versioned_storage.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index a7379e3..3a179f2 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -498,6 +498,15 @@ class versioned_storage:
 
         return objects
 
+#===============================================================================
+    def get_active_commit_objects(self):
+        """ Gets the hashes of all objects written or used by a commit which did not finish yet. It may
+        be resumed, so these are not garbage even though they are not reachable. """
+
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        sdb.db_init() # the server may not have used this repository yet
+        return {item['item_hash'] for item in sdb.get_gc_log()} | {item['hash'] for item in sdb.get_active_commit_changes()}
+
 #===============================================================================
     def verify_fs(self) -> str:
         """
@@ -582,8 +591,14 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try:     return self.delete_garbage_objects()
+        finally: self.unlock()
+
+#===============================================================================
+    def delete_garbage_objects(self):
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
+        active_commit_objects   = self.get_active_commit_objects()
 
         issues = []
 
@@ -594,7 +609,7 @@ class versioned_storage:
         for object_hash in all_objects['index']:
             object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
             file_contents = json.loads(sfs.file_get_contents(object_path))
-            if file_contents['type'] == 'commit':
+            if file_contents['type'] == 'commit' and object_hash not in active_commit_objects:
                 number_of_commits += 1
 
         if head == 'root' and number_of_commits != 0:
@@ -617,8 +632,8 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist - active_commit_objects
+        garbage_file_objects  = file_objects_that_do_exist - file_objects_that_should_exist - active_commit_objects
 
         #================================================================
         # Delete garbage objects
@@ -628,8 +643,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From ff5577deda9d94ac90307860161d7300b804ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 32/71] fix: verify reports issues if the very first commit was
 interrupted

---
 bversion/storage/versioned_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 3a179f2..e019f75 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -516,6 +516,7 @@ class versioned_storage:
 
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
+        active_commit_objects   = self.get_active_commit_objects()
 
         issues = []
 
@@ -526,7 +527,7 @@ class versioned_storage:
         for object_hash in all_objects['index']:
             object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
             file_contents = json.loads(sfs.file_get_contents(object_path))
-            if file_contents['type'] == 'commit':
+            if file_contents['type'] == 'commit' and object_hash not in active_commit_objects:
                 number_of_commits += 1
 
         if head == 'root' and number_of_commits != 0:
-- 
2.43.0


From 76ee747c4e3e74dad13cbf0c513bbbe1b31e7b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 33/71] fix: verify ends with an error or never on damaged
 repositories

Missing or altered index objects ended the command without any results, also
for all other repositories, and exchanged commit objects caused an endless loop.
Missing objects were reported as garbage.
---
 bversion/storage/versioned_storage.py | 36 ++++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index e019f75..1c5b693 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -444,8 +444,6 @@ class versioned_storage:
             'files'   : {}
         }
 
-        # TODO this needs to be able to handle missing objects and log them as errors
-
         head = self.get_head()
         if head == 'root':
             return head, reachable_objects
@@ -453,6 +451,7 @@ class versioned_storage:
         # walk up the commit change to the first version
         pointer = head
         while True:
+            if pointer in reachable_objects['commits']: raise Exception("Cycle detected")
             commit = self.read_commit_index_object(pointer)
             reachable_objects['commits'][pointer] = commit
             pointer = commit['parent']
@@ -514,20 +513,27 @@ class versioned_storage:
         filesystem to ensure than hashes have not changed.
         """
 
-        head, reachable_objects = self.get_reachable_objects()
-        all_objects             = self.get_all_object_hashes()
-        active_commit_objects   = self.get_active_commit_objects()
-
         issues = []
 
+        try:
+            head, reachable_objects = self.get_reachable_objects()
+        except Exception as e: # pylint: disable=broad-except
+            msg = 'Index can not be read: ' + repr(e)
+            print(msg)
+            issues.append(msg)
+            head, reachable_objects = None, {'commits' : {}, 'trees' : {}, 'files' : {}}
+
+        all_objects           = self.get_all_object_hashes()
+        active_commit_objects = self.get_active_commit_objects()
+
         #================================================================
         # if head is root, but commits exists, this is suspisious
         #================================================================
         number_of_commits = 0
         for object_hash in all_objects['index']:
             object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
-            file_contents = json.loads(sfs.file_get_contents(object_path))
-            if file_contents['type'] == 'commit' and object_hash not in active_commit_objects:
+            file_contents = sfs.ignore(json.loads, sfs.file_get_contents(object_path)) # rehashing reports damaged ones
+            if isinstance(file_contents, dict) and file_contents.get('type') == 'commit' and object_hash not in active_commit_objects:
                 number_of_commits += 1
 
         if head == 'root' and number_of_commits != 0:
@@ -537,7 +543,7 @@ class versioned_storage:
             return False, issues
 
         #================================================================
-        # Subtract the two, to find if there are unreachable objects
+        # Subtract the two, to find if there are missing objects
         #================================================================
         # index objects
         index_objects_that_should_exist =   set(reachable_objects['commits'].keys()) \
@@ -550,17 +556,17 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        missing_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
+        missing_file_objects  = file_objects_that_should_exist - file_objects_that_do_exist
 
         # ===============
-        for it in garbage_index_objects:
-            msg = 'Garbage index object: ' + it
+        for it in missing_index_objects:
+            msg = 'Missing index object: ' + it
             print(msg)
             issues.append(msg)
 
-        for it in garbage_file_objects:
-            msg = 'Garbage file object: ' + it
+        for it in missing_file_objects:
+            msg = 'Missing file object: ' + it
             print(msg)
             issues.append(msg)
 
-- 
2.43.0


From f41f75ec5fb9789daa7d2ca080d162a4d1c1b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 34/71] fix: update fails if a file became a directory or the
 other way round

---
 bversion/client.py | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index f4faf36..4e4c54a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -597,6 +597,28 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         'errors'        : []
     }
 
+    # Files which have been deleted on server and need deleting on client. This has to be
+    # done before pulling, as files may have become directories or the other way round
+    if changes['to_delete_on_client'] != []:
+        print('Removing files deleted on the server...')
+
+        for fle in changes['to_delete_on_client']:
+            print(colored('Deleting file: ' + fle['path'], 'red'))
+
+            try:
+                data_store.fs_delete(fle['path'])
+            except OSError:
+                # If this happens, a file was deleted on the server which
+                # never existed on this client, thus do nothing.
+                pass
+
+            affected_files['deleted_files'].append(fle['path'])
+
+            # Delete the folder if it is now empty
+            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
+            except OSError as e:
+                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
+
     if changes['client_pull_files'] != []:
         # Filter out pull ignore files
         filtered_pull_files = []
@@ -646,27 +668,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             pulled_items += 1
 
-    # Files which have been deleted on server and need deleting on client
-    if changes['to_delete_on_client'] != []:
-        print('Removing files deleted on the server...')
-
-        for fle in changes['to_delete_on_client']:
-            print(colored('Deleting file: ' + fle['path'], 'red'))
-
-            try:
-                data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
-
-            affected_files['deleted_files'].append(fle['path'])
-
-            # Delete the folder if it is now empty
-            try: os.removedirs(os.path.dirname(data_store.jfs.get_full_file_path(fle['path'])))
-            except OSError as e:
-                if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
-
 
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
-- 
2.43.0


From 7e735f405f34d68be4b432c262a750eaff52c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 35/71] fix: files deleted both locally and on the server are
 reported as deleted forever

---
 bversion/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 4e4c54a..627822b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -607,10 +607,11 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             try:
                 data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
+            except FileNotFoundError:
+                # If this happens, a file was deleted on the server which never existed on
+                # this client, or was deleted here as well, which is no longer a change.
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
 
             affected_files['deleted_files'].append(fle['path'])
 
-- 
2.43.0


From fbd17d946fba9e38fc03e52366fd75cf2395de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 36/71] fix: update deletes pull ignored local files

---
 bversion/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 627822b..eaafac1 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -603,6 +603,12 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         print('Removing files deleted on the server...')
 
         for fle in changes['to_delete_on_client']:
+            # Pull ignored files don't belong to this working copy any more
+            if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
+                continue
+
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
             try:
-- 
2.43.0


From 56eab6821065edf4ba70c1279af13260418a7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 37/71] fix: resolving to the server keeps local changes made
 after an interrupted update

---
 bversion/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index eaafac1..f0c9c8f 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -645,7 +645,8 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             # Chech we don't already have the file due to a previous run that failed mid-process
             have_file = False
-            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
+            unchanged_here = fle['path'] not in client_changes or client_changes[fle['path']]['status'] == 'unchanged'
+            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash and unchanged_here:
                 have_file = True
 
             # ===================
-- 
2.43.0


From 5fd4dbca76b7b0332a8ef65abd7d185b995a4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 38/71] fix: files which failed to download are never
 downloaded again

---
 bversion/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index f0c9c8f..554a51a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -677,6 +677,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             pulled_items += 1
 
 
+    # If something is missing the revision must not be recorded, or it would never be pulled
+    for item in affected_files['errors']:
+        print(item)
+
+    if affected_files['errors'] != []:
+        raise SystemExit('Update incomplete')
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
@@ -687,10 +694,6 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     ignore(os.remove, config['conflict_resolution_file'])
     ignore(shutil.rmtree, config['conflict_comparison_file_root'])
 
-    # ============================================
-    for item in affected_files['errors']:
-        print(item)
-
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From 326d1d50e57b0dbe216e16354eda41b97c231426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 39/71] fix: outdated files which were pull ignored are never
 updated

---
 bversion/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 554a51a..c85bccd 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -590,6 +590,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     if changes['conflict_files'] != []:
         changes = resolve_update_conflicts(session_token, changes, result['head'], testing, test_overrides)
 
+    # Files which did not change locally, but are not what the server has, were not
+    # pulled when they changed on the server as they were pull ignored at that time
+    for fle in changes.get('no_op', []):
+        file_in_manifest = cdb.get_single_file_from_manifest(fle['path'])
+        if file_in_manifest is not None and file_in_manifest['server_file_hash'] != fle['hash']:
+            changes['client_pull_files'].append(fle)
+
     # Pull and delete from remote to local
     affected_files = {
         'pulled_files'  : [],
-- 
2.43.0


From 17c109ff8a9cccf4a16f0cc52f006936d6a4899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 40/71] fix: update fails if there is an empty directory in
 place of a file

---
 bversion/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index c85bccd..5d947e3 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -670,6 +670,10 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                     affected_files['errors'].append('Failed to pull file ' + fle['path'])
 
                 else:
+                    # There may be empty directories where the file is now
+                    for empty_dir, _, _ in os.walk(data_store.jfs.get_full_file_path(fle['path']), topdown = False):
+                        ignore(os.rmdir, empty_dir)
+
                     make_dirs_if_dont_exist(data_store.jfs.get_full_file_path(cpjoin(*fle['path'].split('/')[:-1]) + '/'))
 
                     print(colored('Pulling file: ' + fle['path'], 'green'))
-- 
2.43.0


From 4d074cd6e58fb44d051190a7a4a397ad396c06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 41/71] fix: edits made to a file while an update is running
 are overwritten

---
 bversion/client.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 5d947e3..ce0cc05 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -546,6 +546,10 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
 
 
+#===============================================================================
+class editedDuringUpdate(Exception):
+    pass
+
 #===============================================================================
 def update(session_token: str, test_overrides = None, include_unchanged = False):
     """ Compare changes on the client to changes on the server and update local files
@@ -597,6 +601,19 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         if file_in_manifest is not None and file_in_manifest['server_file_hash'] != fle['hash']:
             changes['client_pull_files'].append(fle)
 
+    def check_not_edited(path: str):
+        """ Files can be edited while the update is running, this must not be overwritten or deleted """
+
+        if next((True for flter in config['ignore_filters'] if fnmatch.fnmatch(path, flter)), False): return
+
+        expected = client_changes[path] if path in client_changes else cdb.get_single_file_from_manifest(path)
+        expected_time = None
+        if expected is not None and expected.get('status') != 'deleted': expected_time = expected['last_mod']
+
+        full_path = data_store.jfs.get_full_file_path(path)
+        current_time = os.path.getmtime(full_path) if os.path.isfile(full_path) else None
+        if current_time != expected_time: raise editedDuringUpdate(path)
+
     # Pull and delete from remote to local
     affected_files = {
         'pulled_files'  : [],
@@ -619,7 +636,11 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
             try:
+                if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])): check_not_edited(fle['path'])
                 data_store.fs_delete(fle['path'])
+            except editedDuringUpdate:
+                affected_files['errors'].append('File was edited during the update ' + fle['path'])
+                continue
             except FileNotFoundError:
                 # If this happens, a file was deleted on the server which never existed on
                 # this client, or was deleted here as well, which is no longer a change.
@@ -677,8 +698,16 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                     make_dirs_if_dont_exist(data_store.jfs.get_full_file_path(cpjoin(*fle['path'].split('/')[:-1]) + '/'))
 
                     print(colored('Pulling file: ' + fle['path'], 'green'))
-                    data_store.fs_put(fle['path'], req_result, additional_manifest_data = {'server_file_hash' : file_hash})
-                    affected_files['pulled_files'].append(fle['path'])
+
+                    def receive(tmp_path: str):
+                        req_result(tmp_path) # pylint: disable=W0640
+                        check_not_edited(fle['path']) # pylint: disable=W0640
+
+                    try:
+                        data_store.fs_put(fle['path'], receive, additional_manifest_data = {'server_file_hash' : file_hash})
+                        affected_files['pulled_files'].append(fle['path'])
+                    except editedDuringUpdate:
+                        affected_files['errors'].append('File was edited during the update ' + fle['path'])
 
             # test override to allow testing of checkout being killed part completed
             if test_overrides['kill_mid_update'] > 0:
-- 
2.43.0


From cb7bab2e270c160b20aad0d37967456bc4dce19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 42/71] fix: edits made right after a file was received are not
 detected

---
 bversion/storage/client_filesystem_interface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/client_filesystem_interface.py b/bversion/storage/client_filesystem_interface.py
index bc357f2..7611175 100644
--- a/bversion/storage/client_filesystem_interface.py
+++ b/bversion/storage/client_filesystem_interface.py
@@ -29,10 +29,14 @@ class client_filesystem_interface:
             # Add the file to the fs
             tmppath = cpjoin('.bvn', 'downloading')
             self.jfs.file_put_contents(tmppath, data)
+
+            # Must be from before anyone else can edit it, to detect that as a change
+            file_info = self.get_single_file_info(tmppath)
+            file_info['path'] = rpath
+
             self.jfs.move_file(tmppath, rpath)
 
             # Add to the manifest
-            file_info = self.get_single_file_info(rpath)
             file_info.update(additional_manifest_data)
             self.client_db.add_file_to_manifest(file_info)
 
-- 
2.43.0


From 6b7488fe2278a49f38657fdac3e4654df75442d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 43/71] fix: an interrupted update cannot be run again with its
 conflict resolution file

---
 bversion/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index ce0cc05..14940bb 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -401,7 +401,11 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
         conflicting_paths = {f['file_info']['path'] for f in changes['conflict_files']}
         resolved_paths    = {f['path'] for f in resolutions}
 
-        unresolved_paths = conflicting_paths ^ resolved_paths
+        # If the last update got interrupted, some files may already be resolved to the server
+        settled_paths     = {f['path'] for f in changes['client_pull_files'] + changes['to_delete_on_client']}
+        settled_paths     = {f['path'] for f in resolutions if f['path'] in settled_paths and f['resolution'] == 'server'}
+
+        unresolved_paths = conflicting_paths ^ (resolved_paths - settled_paths)
 
         if len(unresolved_paths) != 0:
             raise SystemExit('The conflict resolution file does not resolve all conflicts')
-- 
2.43.0


From e59d0d028b3dc98fe6c034abe99c150628ef3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 44/71] fix: old working copies which were never updated cannot
 be upgraded

---
 bversion/client.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 14940bb..37b6dd8 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -113,14 +113,17 @@ def update_manifest(session_token):
 
         # As the old manifest format did not store server file hashes, we need to get
         # them from the server and add them to the manifest
-        req_result, headers = get_files_in_version(session_token, show_head = False,
-                                                   version_id = old_manifest['have_revision'])
+        server_file_info_for_version = {}
 
-        if headers['status'] != 'ok':
-            raise SystemExit(headers['msg'])
+        if old_manifest['have_revision'] != 'root': # There is nothing on the server for this
+            req_result, headers = get_files_in_version(session_token, show_head = False,
+                                                       version_id = old_manifest['have_revision'])
+
+            if headers['status'] != 'ok':
+                raise SystemExit(headers['msg'])
 
-        # Get file hashes from the server
-        server_file_info_for_version = json.loads(req_result)['files']
+            # Get file hashes from the server
+            server_file_info_for_version = json.loads(req_result)['files']
 
         # Apply pull ignore filters to the server data
         new_server_file_info_for_version = {}
-- 
2.43.0


From fb254bb6fdbb23261b4181835d74b3668575ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 45/71] fix: conflicts of files with colons or outer spaces in
 their name cannot be resolved manually

---
 bversion/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 37b6dd8..34d985f 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -381,7 +381,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
         resolutions = []
         for chunk in chunks:
-            path_sect = chunk[0].split(':')
+            path_sect = chunk[0].split(':', 1)
             res_sect  = chunk[2].split(':')
 
             if 'Path' not in path_sect[0]:
@@ -396,7 +396,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
                 raise SystemExit('specified resolution must be either "client" or "server"')
 
             resolutions.append({
-                'path' : path_sect[1].strip(),
+                'path' : path_sect[1][2:], # only the spaces of the prefix, names may contain them as well
                 'resolution' : resolution
             })
 
-- 
2.43.0


From cb9e4379e4a4fdbce58df0a980ab2dbf95051fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 46/71] fix: answers in upper case are accepted but ignored,
 revert takes NO for yes

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 6b39d2a..5dec5aa 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -43,8 +43,8 @@ def question_user(prompt_text: str, valid_choices) -> str:
     choice = None
     while True:
         print(prompt_text)
-        choice = input('> ')
-        if choice.lower() in valid_choices: break
+        choice = input('> ').lower()
+        if choice in valid_choices: break
 
     return choice
 
-- 
2.43.0


From 3f513e27f7d036a40fc3ba7461f77e22b6f8178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 47/71] fix: paths of files whose name is only white space turn
 into those of directories

---
 bversion/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 5dec5aa..2dee85c 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -114,8 +114,9 @@ def cpjoin(*args: str) -> str:
     if len(args) == 0:
         return ''
 
-    rooted = bool(args[0].strip().startswith('/'))
-    ended  = bool(args[-1].strip().endswith('/'))
+    # White space is part of names
+    rooted = bool(args[0].startswith('/'))
+    ended  = bool(args[-1].endswith('/'))
 
     split_items = []
 
-- 
2.43.0


From b801ce3ce3a48f9b4ab85437ca9002f785020cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 48/71] fix: adding a filter to the pull ignore file deletes
 the files on the server

---
 bversion/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 34d985f..9244245 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -284,7 +284,10 @@ def authenticate(previous_token: str = None) -> str:
 def find_local_changes(include_unchanged : bool = False) -> Tuple[dict, Dict[str, manifestFileDetails]]:
     """ Find things that have changed since the last run, applying ignore filters """
 
-    old_state = cdb.get_manifest()
+    # Pull ignored files are not part of this working copy, this must not delete them on the server
+    old_state = {path : fle for path, fle in cdb.get_manifest().items() if not
+                 next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(path, flter)), False)}
+
     current_state = get_file_list(config['data_dir'])
 
     #Apply ignore filters
-- 
2.43.0


From d28673d9b6ef013807641a5b20b1fbe216e7acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 49/71] fix: pull-ignore can not delete several or already
 deleted files, or hides files if interrupted

With nested or already deleted files it failed before the filters were added,
but after some of the files were deleted.
---
 bversion/client.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 9244245..cc5f245 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1134,6 +1134,18 @@ def pull_ignore(filters, require_commit_changes):
             "They will be added to your pull ignore file in either case.\n",
             valid_choices=['delete', 'nothing'])
 
+    # Add the filters to the pull ignore file. This is done first, as if interrupted
+    # later, files that are missing in the manifest would never be pulled again
+    pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
+    pull_ignore_filters: str = file_or_default(pull_ignore_file_path, b'').decode('utf8')
+    pull_ignore_filters += "\n"
+
+    for flter in filters:
+        pull_ignore_filters += flter + "\n"
+
+    file_put_contents(pull_ignore_file_path, pull_ignore_filters.encode('utf8'))
+
+    if affected_local_files != []:
         if choice == 'delete':
 
             affected_dirs = {}
@@ -1141,7 +1153,8 @@ def pull_ignore(filters, require_commit_changes):
             for path in affected_local_files:
                 full_path = cpjoin(working_copy_base_path, path)
                 print(colored('Deleting local file: ' + full_path, 'red'))
-                os.remove(full_path)
+                try: os.remove(full_path)
+                except FileNotFoundError: pass # already deleted by the user
 
                 affected_dirs[os.path.dirname(full_path)] = None
 
@@ -1151,6 +1164,7 @@ def pull_ignore(filters, require_commit_changes):
 
                 while True:
                     walking_path = '/' + cpjoin(*split_path)
+                    if not os.path.isdir(walking_path): break # was removed along with one of its subdirectories
                     contents = os.listdir(walking_path)
 
                     if len(contents) == 0:
@@ -1169,16 +1183,6 @@ def pull_ignore(filters, require_commit_changes):
             cdb.remove_file_from_manifest(path)
         cdb.commit()
 
-    # Add the filters to the pull ignore file
-    pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
-    pull_ignore_filters: str = file_or_default(pull_ignore_file_path, b'').decode('utf8')
-    pull_ignore_filters += "\n"
-
-    for flter in filters:
-        pull_ignore_filters += flter + "\n"
-
-    file_put_contents(pull_ignore_file_path, pull_ignore_filters.encode('utf8'))
-
 
 #===============================================================================
 def list_versions(session_token):
-- 
2.43.0


From 07160481e5070812a2d2205c69a76dce849b63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 50/71] fix: revert only affects pull ignored files

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index cc5f245..15e0dd5 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -989,7 +989,7 @@ def revert(session_token, args):
     # Apply pull ignore filters
     filtered_files_in_revision = {}
     for path, fle in files_in_revision.items():
-        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+        if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
             filtered_files_in_revision[path] = fle
     files_in_revision = filtered_files_in_revision
 
-- 
2.43.0


From 7f94ec55c33f54bdd625e75a2741f03543ba4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 51/71] fix: revert to head mixes files of several revisions if
 the head changes meanwhile

---
 bversion/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 15e0dd5..d344994 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -982,7 +982,9 @@ def revert(session_token, args):
         raise SystemExit(headers['msg'])
 
     # Update version id now we know it for definate
+    # All files must come from this version, even if the head changes in the meantime
     version_id = headers['version_id']
+    use_head   = False
 
     files_in_revision = json.loads(result)['files']
 
-- 
2.43.0


From 5d25de0fd9746cfed5b0800e111ccefe25909c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 52/71] fix: revert cannot restore deleted files, and loses all
 of them if a download fails

---
 bversion/client.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index d344994..36b7ca0 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1056,11 +1056,8 @@ def revert(session_token, args):
         raise SystemExit('Opperation Abort')
 
     # ===============================
-    for file_path in files_to_revert:
-        print('Deleting file: ' + file_path)
-        os.remove(cpjoin(working_copy_base_path, file_path))
+    errors = False
 
-    # ===============================
     for file_path in files_to_revert:
         print('Reverting file: ' + file_path)
 
@@ -1074,6 +1071,13 @@ def revert(session_token, args):
 
 
         if headers['status'] == 'ok':
+            # The directory may be gone, or there may be empty directories where the file was
+            full_path = cpjoin(working_copy_base_path, file_path)
+            for empty_dir, _, _ in os.walk(full_path, topdown = False):
+                ignore(os.rmdir, empty_dir)
+
+            make_dirs_if_dont_exist(os.path.dirname(full_path) + '/')
+
             # If we are using the local revision, we need to add the file to the manifest,
             # otherwise just download it so it will appear as a changed file, and can be committed.
             if version_id == meta['have_revision']:
@@ -1083,9 +1087,12 @@ def revert(session_token, args):
             else:
                 tmp_path = cpjoin(working_copy_base_path, '.bvn', 'download_tmp')
                 req_result(tmp_path)
-                os.rename(tmp_path, cpjoin(working_copy_base_path, file_path))
+                os.rename(tmp_path, full_path)
         else:
             print('error with downloading ' + file_path)
+            errors = True
+
+    if errors: raise SystemExit('Not all files could be reverted')
 
 
 #===============================================================================
-- 
2.43.0


From 031b30260d163a856fb0fe3a97d74de4272eddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 53/71] fix: reverting all files lists files it will delete but
 keeps them

---
 bversion/client.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 36b7ca0..3a971c3 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1003,8 +1003,6 @@ def revert(session_token, args):
         # When reverting all, diff files in the remote and local manifests and delete
         # any that don't exist in the revision we are reverting to.
 
-        # TODO needs testing
-
         local_files = cdb.get_manifest()
 
         for fle in files_in_revision.values():
@@ -1014,7 +1012,8 @@ def revert(session_token, args):
                 local_files.pop(fle['path'])
 
         for fle in local_files.values():
-            files_to_delete.append(fle['path'])
+            if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+                files_to_delete.append(fle['path'])
 
     # ----------------
     else:
@@ -1031,7 +1030,7 @@ def revert(session_token, args):
             if matches_file:
                 files_to_revert.append(fle['path'])
 
-    if files_to_revert == []:
+    if files_to_revert == [] and files_to_delete == []:
         raise SystemExit('Could not find files in the specified revision')
 
 
@@ -1055,6 +1054,24 @@ def revert(session_token, args):
     if answer == 'no':
         raise SystemExit('Opperation Abort')
 
+    # ===============================
+    for file_path in files_to_delete:
+        print('Deleting file: ' + file_path)
+
+        # As below, this is only a change to commit if we are not using the local revision
+        try:
+            if version_id == meta['have_revision']: data_store.fs_delete(file_path)
+            else: os.remove(cpjoin(working_copy_base_path, file_path))
+        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
+            if version_id == meta['have_revision']:
+                cdb.remove_file_from_manifest(file_path)
+                cdb.commit()
+
+        # Delete the folder if it is now empty
+        try: os.removedirs(os.path.dirname(cpjoin(working_copy_base_path, file_path)))
+        except OSError as e:
+            if e.errno not in [errno.ENOTEMPTY, errno.ENOENT, errno.ENOTDIR]: raise
+
     # ===============================
     errors = False
 
-- 
2.43.0


From 646db56946fb826b2ad6220e146b4ac274e9a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 54/71] fix: checkout fails after creating half of the working
 copy, and ignores the user name

---
 bversion/client.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 3a971c3..07bb916 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -327,7 +327,7 @@ def checkout(args):
     #---------------
     config = {"server_domain" : server_domain,
                 "repository"    : repository_name[0],
-                "user"          : "test",
+                "user"          : user,
                 "private_key"   : private_key}
 
     # Validate info is correct by attempting to authenticate
@@ -337,13 +337,14 @@ def checkout(args):
     config["private_key"] = private_key
 
     # create repo dir
-    try: os.makedirs(repository_name)
+    checkout_dir = repository_name[0]
+    try: os.makedirs(checkout_dir)
     except: raise SystemExit('Directory already exists')
-    os.makedirs(cpjoin(repository_name, '.bvn'))
-    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4))
+    os.makedirs(cpjoin(checkout_dir, '.bvn'))
+    file_put_contents(cpjoin(checkout_dir, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4).encode('utf8'))
 
-    config["private_key"] = unlocked_key
-    os.chdir(repository_name); init(True)
+    os.chdir(checkout_dir); init(True)
+    config["private_key"] = unlocked_key # init has read the stored one
     update(session_token)
 
 
-- 
2.43.0


From 03dc29d135aade45f16cac2cfeabad65f9f1d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 55/71] fix: restore fails if any repository has no backup

---
 bversion/repo_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index cfc7eb1..19a18d6 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -277,6 +277,9 @@ def restore():
     s3_conn = init_backup()
 
     for repository_name, details in config['repositories'].items():
+        if 'backup' not in details or details['backup'] is not True:
+            continue # There is nothing on the remote for this
+
         repository_path = details['path']
         repository_path += '_restore'
 
@@ -286,6 +289,10 @@ def restore():
 
         data_store = versioned_storage(repository_path, path_override = path_override)
 
+        # If there were no commits, nothing got backed up
+        if s3_interface.list_remote_objects(s3_conn, repository_name + '/') == []:
+            continue
+
         # Download head pointer
         fle = BytesIO()
         streaming_download(s3_conn, config, repository_name + '/head',
-- 
2.43.0


From 98d43e7771c8b663616e1aee22350d764cac3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 56/71] fix: restore accepts truncated and exchanged objects

---
 bversion/repo_manager.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index 19a18d6..85ebe15 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -1,7 +1,7 @@
 import sys, os, time
 from io import BytesIO
 
-from bversion.common import cpjoin, merge_config, make_dirs_if_dont_exist
+from bversion.common import cpjoin, merge_config, make_dirs_if_dont_exist, hash_file
 from bversion.backup import s3_interface, pipeline, crypto
 from bversion.backup.pipeline_common import serialise_pipeline_format
 from bversion.storage.versioned_storage import versioned_storage
@@ -271,6 +271,13 @@ def backup():
                 print('Backed up commit: ' + commit_hash)
 
 
+#===============================================================================
+def check_hash(path, expected_hash):
+    """ The remote may have lost the end of an object, or returned another one """
+
+    if hash_file(path) != expected_hash:
+        raise IOError('Object is damaged: ' + path)
+
 #===============================================================================
 def restore():
     # Connect to the remote
@@ -300,10 +307,10 @@ def restore():
                            file_handle = fle)
 
         fle.seek(0)
-        commit_pointer = fle.read().decode('utf8')
+        commit_pointer = head = fle.read().decode('utf8')
 
-        with open(cpjoin(repository_path, 'head'), 'w') as fle:
-            fle.write(commit_pointer)
+        if not set(head) <= set('0123456789abcdef'):
+            raise IOError('Invalid head')
 
         while True:
             # Download commit
@@ -319,6 +326,8 @@ def restore():
                                    version_id       = None,
                                    file_handle      = fle)
 
+            check_hash(fs_path, commit_pointer)
+
             commit = data_store.read_commit_index_object(commit_pointer)
 
             # download tree objects pointed to by commit
@@ -338,6 +347,8 @@ def restore():
                                        version_id       = None,
                                        file_handle      = fle)
 
+                check_hash(fs_path, tree_object_hash)
+
                 it = data_store.read_tree_index_object(tree_object_hash) # pylint: disable=W0640
                 tree_objects[tree_object_hash] = it # pylint: disable=W0640
 
@@ -350,7 +361,8 @@ def restore():
             for tree in tree_objects.values():
                 for fle in tree['files'].values():
 
-                    object_path = fle['hash'][:2] + '/' + fle['hash'][2:]
+                    file_hash = fle['hash']
+                    object_path = file_hash[:2] + '/' + file_hash[2:]
                     fs_path = cpjoin(repository_path, 'files', object_path)
 
                     print('Downloading file: ' + object_path)
@@ -358,7 +370,7 @@ def restore():
                     make_dirs_if_dont_exist(os.path.dirname(fs_path))
 
                     # Recreate empty files as they don't get stored
-                    if fle['hash'] == empty_file_identifier:
+                    if file_hash == empty_file_identifier:
                         with open(fs_path, 'w'):
                             pass
 
@@ -369,11 +381,17 @@ def restore():
                                             version_id       = None,
                                             file_handle      = fle)
 
+                    check_hash(fs_path, file_hash)
+
             # update commit pointer if not 'root'
             commit_pointer = commit['parent']
             if commit_pointer == 'root':
                 break
 
+        # The head is stored last, so that a partial restore is not taken for the whole repository
+        with open(cpjoin(repository_path, 'head'), 'w') as fle:
+            fle.write(head)
+
 
 #===============================================================================
 def run():
-- 
2.43.0


From 0e61d84f622306d637c1b577c814561481acce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 57/71] fix: Do not split filters at Unicode line separators,
 which are part of file names

---
 bversion/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 07bb916..b0d7a11 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -75,12 +75,13 @@ def init(unlocked = False):
     except IOError: raise SystemExit('Could not lock working copy')
 
     #-----------
-    ignore_filters:      str = file_or_default(cpjoin(working_copy_base_path, '.bvn_ignore'), b'').decode('utf8')
-    pull_ignore_filters: str = file_or_default(cpjoin(working_copy_base_path, '.bvn_pull_ignore'), b'').decode('utf8')
+    # Split before decoding, as text is also split at characters which can be part of a file name
+    ignore_filters:      List[bytes] = file_or_default(cpjoin(working_copy_base_path, '.bvn_ignore'), b'').splitlines()
+    pull_ignore_filters: List[bytes] = file_or_default(cpjoin(working_copy_base_path, '.bvn_pull_ignore'), b'').splitlines()
 
     #-----------
-    config['ignore_filters']:      List[str] = ['/.bvn/*', '/.bvn_pull_ignore'] + ignore_filters.splitlines()
-    config['pull_ignore_filters']: List[str] = pull_ignore_filters.splitlines()
+    config['ignore_filters']:      List[str] = ['/.bvn/*', '/.bvn_pull_ignore'] + [flter.decode('utf8') for flter in ignore_filters]
+    config['pull_ignore_filters']: List[str] = [flter.decode('utf8') for flter in pull_ignore_filters]
 
     # We append the pull ignore filters to the ignore filters in order to stop the client
     # sending files to the server that cannot be pulled
-- 
2.43.0


From 7a5e966ee08cf0d1fe48beb2dfc7457664961b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 58/71] fix: verify fails if an unfinished commit is rolled
 back while it runs

---
 bversion/storage/versioned_storage.py | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 1c5b693..794d34b 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -485,15 +485,12 @@ class versioned_storage:
             'files' : {}
         }
 
-        # Enumerate index objects
-        for it in os.listdir(sfs.cpjoin(self.base_path, 'index')):
-            for it2 in os.listdir(sfs.cpjoin(self.base_path, 'index', it)):
-                objects['index'][it + it2] = sfs.cpjoin(self.base_path, 'index', it, it2)
-
-        # Enumerate file objects
-        for it in os.listdir(sfs.cpjoin(self.base_path, 'files')):
-            for it2 in os.listdir(sfs.cpjoin(self.base_path, 'files', it)):
-                objects['files'][it + it2] = sfs.cpjoin(self.base_path, 'files', it, it2)
+        for kind, found in objects.items():
+            for it in os.listdir(sfs.cpjoin(self.base_path, kind)):
+                try:
+                    for it2 in os.listdir(sfs.cpjoin(self.base_path, kind, it)):
+                        found[it + it2] = sfs.cpjoin(self.base_path, kind, it, it2)
+                except FileNotFoundError: pass # rolling back an unfinished commit removes empty directories
 
         return objects
 
@@ -532,11 +529,14 @@ class versioned_storage:
         number_of_commits = 0
         for object_hash in all_objects['index']:
             object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
-            file_contents = sfs.ignore(json.loads, sfs.file_get_contents(object_path)) # rehashing reports damaged ones
+            try:
+                file_contents = sfs.ignore(json.loads, sfs.file_get_contents(object_path)) # rehashing reports damaged ones
+            except FileNotFoundError: # an unfinished commit may have been rolled back meanwhile
+                continue
             if isinstance(file_contents, dict) and file_contents.get('type') == 'commit' and object_hash not in active_commit_objects:
                 number_of_commits += 1
 
-        if head == 'root' and number_of_commits != 0:
+        if head == 'root' and number_of_commits != 0 and self.get_head() == 'root': # the first commit may have finished meanwhile
             msg = 'Commits exist, but head is root.'
             print(msg)
             issues.append(msg)
@@ -575,7 +575,11 @@ class versioned_storage:
         #================================================================
         for object_hash, object_path in all_objects['index'].items():
             print('Rehashing: ' + object_path)
-            current_hash = sfs.hash_file(object_path)
+            try:
+                current_hash = sfs.hash_file(object_path)
+            except FileNotFoundError: # an unfinished commit may have been rolled back meanwhile
+                if object_hash not in index_objects_that_should_exist: continue
+                current_hash = None
             if object_hash != current_hash:
                 msg = 'Index opject hash has changed: ' + object_hash
                 print(msg)
@@ -583,7 +587,11 @@ class versioned_storage:
 
         for object_hash, object_path in all_objects['files'].items():
             print('Rehashing: ' + object_path)
-            current_hash = sfs.hash_file(object_path)
+            try:
+                current_hash = sfs.hash_file(object_path)
+            except FileNotFoundError: # an unfinished commit may have been rolled back meanwhile
+                if object_hash not in file_objects_that_should_exist: continue
+                current_hash = None
             if object_hash != current_hash:
                 msg = 'File object hash has changed: ' + object_hash
                 print(msg)
-- 
2.43.0


From 533fa5a0873de548a2de6ea8f35628c141fe48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 59/71] fix: an error in a request leaves the server database
 locked for all others

---
 bversion/server.py            | 8 ++++++--
 bversion/storage/server_db.py | 9 +++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index dbfd5d0..6831875 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -7,7 +7,7 @@ from bversion.http.http_server import Request, Responce, ServeFile, ConnectionCo
 from bversion.common import cpjoin
 from bversion.storage.versioned_storage import versioned_storage
 from bversion.merge_client_and_server_changes import merge_client_and_server_changes
-from bversion.storage.server_db import get_server_db_instance_for_thread
+from bversion.storage.server_db import get_server_db_instance_for_thread, rollback_open_transaction
 
 from bversion import version_numbers
 
@@ -61,7 +61,11 @@ def endpoint(request: Request, context: ConnectionContext):
     if request_action not in routes:
         raise Exception('request error')
 
-    responce: Responce = routes[request_action](request, context)
+    try:
+        responce: Responce = routes[request_action](request, context)
+    finally:
+        # A transaction left open by an error would keep everyone else from using the database
+        rollback_open_transaction()
 
     return responce
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index ede8f23..9b16fac 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -28,6 +28,15 @@ def get_server_db_instance_for_thread(db_file_path, need_to_recreate = False, pa
     return threadLocal.db_instance
 
 
+#=====================================================
+def rollback_open_transaction():
+    """ The connection of a thread is not closed before it is garbage collected, which keeps its locks """
+
+    db_instance = getattr(threadLocal, 'db_instance', None)
+    if db_instance is not None and db_instance.con.in_transaction:
+        db_instance.con.rollback()
+
+
 #=====================================================
 class server_db:
     def __init__(self, base_path : str, path_override = None):
-- 
2.43.0


From 6f935281348fed0ab4516abde718151326beef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 60/71] fix: a committed file with the old name of .bvn_ignore
 replaces it in working copies

---
 bversion/client.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index b0d7a11..440e30a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -51,14 +51,13 @@ def init(unlocked = False):
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
     # As the system was renamed from shttpfs to BVersion, we need to rename assosiated dirs and files if needed
-    try: os.rename(cpjoin(working_copy_base_path, '.shttpfs'), cpjoin(working_copy_base_path, '.bvn'))
-    except FileNotFoundError: pass
+    for name in ['', '_ignore', '_pull_ignore']:
+        old_path = cpjoin(working_copy_base_path, '.shttpfs' + name)
+        new_path = cpjoin(working_copy_base_path, '.bvn' + name)
+        if os.path.exists(new_path): continue # a commit may contain a file with the old name, it must not replace this
 
-    try: os.rename(cpjoin(working_copy_base_path, '.shttpfs_ignore'), cpjoin(working_copy_base_path, '.bvn_ignore'))
-    except FileNotFoundError: pass
-
-    try:os.rename(cpjoin(working_copy_base_path, '.shttpfs_pull_ignore'), cpjoin(working_copy_base_path, '.bvn_pull_ignore'))
-    except FileNotFoundError: pass
+        try: os.rename(old_path, new_path)
+        except FileNotFoundError: pass
 
 
     # ======================================
-- 
2.43.0


From 3b3e60d0221c8b8a1990fa06ef667e4d75340510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:39 +0000
Subject: [PATCH 61/71] fix: deleting a file that was added on both sides is
 not noticed after its conflict is resolved to the client

---
 bversion/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 440e30a..62be656 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -602,6 +602,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
         return
 
     # Files which are in conflict
+    conflicts = list(changes['conflict_files'])
     if changes['conflict_files'] != []:
         changes = resolve_update_conflicts(session_token, changes, result['head'], testing, test_overrides)
 
@@ -735,6 +736,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     if affected_files['errors'] != []:
         raise SystemExit('Update incomplete')
 
+    # A file which was added on both sides, and of which the version of the client is retained, replaces
+    # that on the server. If it was unknown, deleting it before it is committed would not be noticed.
+    for conflict in conflicts:
+        fle = conflict['file_info']
+        if conflict['server_status'] == 'Changed' and cdb.get_single_file_from_manifest(fle['path']) is None:
+            cdb.add_file_to_manifest({'path' : fle['path'], 'created' : -1, 'last_mod' : -1, 'server_file_hash' : fle['hash']})
+
     # Update the latest revision in the manifest
     manifest_meta = cdb.get_system_meta()
     manifest_meta['have_revision'] = result['head']
-- 
2.43.0


From 99256c5becf5973e4ab525bef6e9f42c785dbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 62/71] fix: relative filters given in a directory with glob
 characters in its name matched nothing, or other files

---
 bversion/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 62be656..46e058c 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1,5 +1,5 @@
 from pprint import pprint
-import os, sys, json, base64, fnmatch, shutil, fcntl, errno, urllib.parse
+import os, sys, json, base64, fnmatch, glob, shutil, fcntl, errno, urllib.parse
 
 from collections import defaultdict
 from typing import List, Dict, Tuple, Optional
@@ -196,7 +196,8 @@ def normalise_filters(filters):
     normalised_filters = []
     for flter in filters:
         if flter[0] != '*' and flter[0] != '/':
-            normalised = cpjoin(relative_cwd, flter)
+            # The directory is not a pattern, even if its name looks like one
+            normalised = cpjoin(glob.escape(relative_cwd), flter)
             if normalised[0] != '/':
                 normalised = '/' + normalised
 
-- 
2.43.0


From c7db615ba11922b150f60c8a7b8f1c57c1ce7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 63/71] fix: update deleted files which were put in the ignore
 file here when they were deleted on the server

---
 bversion/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 46e058c..4e61a29 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -649,8 +649,14 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             print(colored('Deleting file: ' + fle['path'], 'red'))
 
             try:
-                if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])): check_not_edited(fle['path'])
-                data_store.fs_delete(fle['path'])
+                # Was deleted here as well. If there is a file it was put in the ignore file, and is not ours
+                if client_changes.get(fle['path'], {}).get('status') == 'deleted':
+                    cdb.remove_file_from_manifest(fle['path'])
+                    cdb.commit()
+
+                else:
+                    if os.path.isfile(data_store.jfs.get_full_file_path(fle['path'])): check_not_edited(fle['path'])
+                    data_store.fs_delete(fle['path'])
             except editedDuringUpdate:
                 affected_files['errors'].append('File was edited during the update ' + fle['path'])
                 continue
-- 
2.43.0


From 72a5357e9e98df9fbf39b146d09f18fd63f5e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 64/71] fix: restore accepted objects which are not encrypted,
 so that anybody who can write to the bucket could forge a repository

---
 bversion/repo_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index 85ebe15..4a7b70b 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -72,7 +72,13 @@ def streaming_upload(s3_conn, lconfig, remote_file_path, file_handle):
 #===============================================================================
 def streaming_download(s3_conn, lconfig, remote_file_path, version_id, file_handle):
     download_stream  = s3_interface.streaming_download()
-    header = download_stream.begin(s3_conn, remote_file_path, version_id)[0]
+    header, pl_format = download_stream.begin(s3_conn, remote_file_path, version_id)
+
+    # Everything that backup stores is encrypted. Anything which is not was put there by
+    # somebody else, and is not protected by the password.
+    if 'encrypt' not in pl_format['format']:
+        raise IOError('Object is not encrypted: ' + remote_file_path)
+
     pl                = pipeline.build_pipeline_streaming(download_stream, 'in')
     pl.pass_config(lconfig, header)
 
-- 
2.43.0


From c68f68840d1a79f247f45363f3e0b8a2eeb4ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 65/71] fix: rolling back an interrupted transaction overwrote
 files which were written in the meantime

---
 bversion/storage/journaling_filesystem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index a872dfe..3ed5d59 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -114,7 +114,11 @@ class journaling_filesystem:
         for j_itm in reversed(journ_list):
             # If there is nothing to undo from, the action was not done, or its undo already was
             if os.path.exists(j_itm['data'][1]):
-                if j_itm['data'][0] == 'move': ignore(os.makedirs, os.path.dirname(j_itm['data'][2]))
+                if j_itm['data'][0] == 'move':
+                    dst = j_itm['data'][2]
+                    ignore(os.makedirs, os.path.dirname(dst))
+                    # Something written there since the transaction was interrupted must not be overwritten
+                    if os.path.isfile(dst): shutil.move(dst, self.new_backup(dst))
                 self.do_action({'do' : j_itm['data']}, write_journal = False)
 
             # As each item is completed remove it from the journal. In case
-- 
2.43.0


From c07577de88afa268981cc35466d9df6e526912b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 66/71] fix: list-versions ended quietly and well when the
 server refused the request

---
 bversion/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 4e61a29..a2a1b63 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1245,6 +1245,8 @@ def list_versions(session_token):
         else:
             print ('There are no commits')
 
+    else:
+        raise SystemExit(headers['msg'])
 
 #===============================================================================
 def list_ignored_files():
-- 
2.43.0


From 160f04cfbeb243e034d5f973cacfd698d654e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 67/71] fix: the first backup to a bucket without versioning
 crashed, and to one with suspended versioning ended as if it had succeeded

---
 bversion/backup/s3_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bversion/backup/s3_interface.py b/bversion/backup/s3_interface.py
index 8862ce0..ad5863a 100644
--- a/bversion/backup/s3_interface.py
+++ b/bversion/backup/s3_interface.py
@@ -21,10 +21,9 @@ def connect(config):
                             aws_secret_access_key=secret_key)
 
     bucket_versioning = client.get_bucket_versioning(Bucket=config['s3']['bucket'])
-    if bucket_versioning['Status'] != 'Enabled':
-        print('Bucket versioning must be enabled, attempting to enable, please restart application')
+    if bucket_versioning.get('Status') != 'Enabled': # there is no status if it was never enabled
         client.put_bucket_versioning(Bucket=config['s3']['bucket'], VersioningConfiguration={'Status': 'Enabled' })
-        raise SystemExit(0)
+        raise SystemExit('Bucket versioning must be enabled, attempting to enable, please restart application')
     return {'client' : client, 'bucket' : config['s3']['bucket']}
 
 #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++==
-- 
2.43.0


From e9aba9cd21904190da43b98305e893bc61e852bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 68/71] fix: files which can not be looked at are taken for
 deleted, and a commit deletes them on the server

---
 bversion/common.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 2dee85c..b86c163 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,4 +1,4 @@
-import os.path, hashlib, errno, copy
+import os.path, hashlib, errno, copy, stat
 import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
@@ -167,8 +167,16 @@ def get_file_list(path: str) -> List[fileDetails]:
         files = os.listdir(path)
         for fle in files:
             f_path = cpjoin(path, fle)
-            if os.path.isdir(f_path): recur_dir(f_path, cpjoin(newpath, fle))
-            elif os.path.isfile(f_path): f_list.append(get_single_file_info(f_path, cpjoin(newpath, fle)))
+
+            # A file that can not be looked at must not appear to have been deleted, so
+            # only what does not exist (broken links and the like) is passed over.
+            try: mode = os.stat(f_path).st_mode
+            except OSError as e:
+                if e.errno in (errno.ENOENT, errno.ENOTDIR, errno.ELOOP): continue
+                raise
+
+            if stat.S_ISDIR(mode): recur_dir(f_path, cpjoin(newpath, fle))
+            elif stat.S_ISREG(mode): f_list.append(get_single_file_info(f_path, cpjoin(newpath, fle)))
 
     recur_dir(path)
     return f_list
-- 
2.43.0


From e029b61110f1b4dcea0a08f8d94605624e71154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 69/71] fix: pull-ignore deleted files which were edited while
 it asked its question

---
 bversion/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index a2a1b63..64f85ad 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1176,6 +1176,10 @@ def pull_ignore(filters, require_commit_changes):
             "They will be added to your pull ignore file in either case.\n",
             valid_choices=['delete', 'nothing'])
 
+        # The question may have been displayed for a long time
+        if choice == 'delete' and require_commit_changes and len(find_local_changes()) != 0:
+            raise SystemExit("Please commit your local changes first.")
+
     # Add the filters to the pull ignore file. This is done first, as if interrupted
     # later, files that are missing in the manifest would never be pulled again
     pull_ignore_file_path = cpjoin(working_copy_base_path, '.bvn_pull_ignore')
-- 
2.43.0


From 8839290041f085be418e4a82c165d8a0840bdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 70/71] fix: conflict resolutions left by a killed update are
 not applied to later conflicts

---
 bversion/client.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 64f85ad..35d5f25 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -364,6 +364,15 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
     # ----------------------------------------------------------------------
     seperator = '------------'
     conflict_resolutions          = file_or_default(config['conflict_resolution_file'], None)
+    revision_line                 = 'Updating from revision: '
+    have_revision                 = cdb.get_system_meta()['have_revision']
+
+    # If the last update was killed after it was complete, the file is still there. It is
+    # not meant for the conflicts of later updates, even if they are about the same files
+    if conflict_resolutions is not None:
+        preamble = conflict_resolutions.decode('utf-8').split('\n' + seperator)[0].split('\n')
+        if any(line.startswith(revision_line) and line != revision_line + have_revision for line in preamble):
+            conflict_resolutions = None
 
     if conflict_resolutions is not None:
         # Parse the conflict resolution file
@@ -507,6 +516,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
         if choice == 'manual':
             # Generate a conflict resolution file
             resolution_file = 'Please write either "client" or "server" after each resolution block \n\n'
+            resolution_file += revision_line + have_revision + '\n\n'
 
             for fle in changes['conflict_files']:
                 resolution_file += seperator + '\n'
-- 
2.43.0


From 744e164f38d26ac431b42608ccb44104abd8212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 71/71] fix: putting back the original after choosing the
 client's version went unnoticed, and the server's version stayed

---
 bversion/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 35d5f25..9990f66 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -753,11 +753,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     if affected_files['errors'] != []:
         raise SystemExit('Update incomplete')
 
-    # A file which was added on both sides, and of which the version of the client is retained, replaces
-    # that on the server. If it was unknown, deleting it before it is committed would not be noticed.
+    # The version of the client, where it is retained, replaces that on the server. The manifest has to describe the
+    # latter, or deleting the file or putting back the original before it is committed would not be noticed.
     for conflict in conflicts:
         fle = conflict['file_info']
-        if conflict['server_status'] == 'Changed' and cdb.get_single_file_from_manifest(fle['path']) is None:
+        in_manifest = cdb.get_single_file_from_manifest(fle['path'])
+        if conflict['server_status'] == 'Deleted': cdb.remove_file_from_manifest(fle['path'])
+        elif in_manifest is None or in_manifest['server_file_hash'] != fle['hash']:
             cdb.add_file_to_manifest({'path' : fle['path'], 'created' : -1, 'last_mod' : -1, 'server_file_hash' : fle['hash']})
 
     # Update the latest revision in the manifest
-- 
2.43.0

