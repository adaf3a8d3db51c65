""" A stand-in for the remote store of backups, with its documented behaviour: listing in pages, multipart uploads which
become visible when they are completed, no empty ones, versions. The state is on disk, so that it survives the death of the
process which uses it. Every call can be made to fail, or be the last thing the process does, before or after it took effect. """
import os, signal, pickle, hashlib

class ClientError(Exception): pass
class NoSuchKey(ClientError): pass

class Body:
    def __init__(self, data): self._data = data; self._pos = 0
    def read(self, amt = None):
        end = len(self._data) if amt is None else self._pos + amt
        out = self._data[self._pos:end]; self._pos += len(out)
        return out
    def close(self): pass

class S3:
    class exceptions: NoSuchKey = NoSuchKey
    def __init__(self, path, page = 1000, log = False, min_part = 0):
        self.path = path; self.page = page; self.min_part = min_part
        self.faults = {}; self.calls = 0; self.fired = []; self.log_path = path + '.log' if log else None
        os.makedirs(path + '/objects', exist_ok = True); os.makedirs(path + '/uploads', exist_ok = True)

    # ------------------------------------------------ for the harness
    def arm(self, faults): self.faults = dict(faults); self.calls = 0; self.fired = []
    def _file(self, key): return self.path + '/objects/' + hashlib.sha256(key.encode()).hexdigest()
    def all(self):
        """ {key: bytes} """
        out = {}
        for n in os.listdir(self.path + '/objects'):
            with open(self.path + '/objects/' + n, 'rb') as f: k, d, _ = pickle.load(f)
            out[k] = d
        return out
    def again(self):
        """ the keys that were uploaded although they were there """
        try:
            with open(self.path + '/again') as f: return f.read().split('\n')[:-1]
        except FileNotFoundError: return []
    def put(self, key, data, version = 'harness'):
        if version != 'harness' and os.path.exists(self._file(key)):
            with open(self.path + '/again', 'a') as f: f.write(key + '\n')
        tmp = self.path + '/tmp'
        with open(tmp, 'wb') as f: pickle.dump((key, data, version), f)
        os.rename(tmp, self._file(key))
    def drop(self, key): os.remove(self._file(key))
    def sent(self):
        """ the arguments of every call """
        out = []
        with open(self.log_path, 'rb') as f:
            while True:
                try: out.append(pickle.load(f))
                except EOFError: return out
    def uploads(self): return sorted(os.listdir(self.path + '/uploads'))

    # ------------------------------------------------ the interface
    def connect(self, *args, **kw): # pylint: disable=unused-argument
        return self

    def _call(self, name, kw, effect):
        if self.log_path and not name.startswith("list_multi"):
            with open(self.log_path, 'ab') as f: pickle.dump((name, kw), f)
        n = self.calls; self.calls += 1
        fault = self.faults.get(n)
        if fault is None: return effect()
        self.fired.append((n, name, fault))
        kind, when = fault
        if when == 'after':
            try: effect()
            except ClientError: pass
        if kind == 'kill': os.kill(os.getpid(), signal.SIGKILL)
        if kind == 'io': raise OSError('injected: connection lost')
        if kind == 'client': raise ClientError('injected: service unavailable')
        raise RuntimeError('injected: ' + kind)

    def versioning(self, new = None):
        """ 'Enabled', 'Suspended', or 'none' if it never was enabled; on disk as everything else """
        f = self.path + '/versioning'
        if new is not None:
            with open(f + '.new', 'w') as h: h.write(new)
            os.rename(f + '.new', f)
        try:
            with open(f) as h: return h.read()
        except FileNotFoundError: return 'Enabled'

    def get_bucket_versioning(self, **kw):
        def effect(): # without a status if it never was enabled
            s = self.versioning()
            return {} if s == 'none' else {'Status' : s}
        return self._call('get_bucket_versioning', kw, effect)

    def put_bucket_versioning(self, **kw):
        return self._call('put_bucket_versioning', kw, lambda: self.versioning(kw['VersioningConfiguration']['Status']) and {} or {})

    def list_objects(self, **kw):
        def effect():
            keys = sorted((k for k in self.all() if k.startswith(kw.get('Prefix', ''))), key = lambda k: k.encode())
            if kw.get('Marker'): keys = [k for k in keys if k.encode() > kw['Marker'].encode()]
            out = {'IsTruncated' : len(keys) > self.page}
            if keys: out['Contents'] = [{'Key' : k, 'Size' : 1} for k in keys[:self.page]]
            return out
        return self._call('list_objects', kw, effect)

    def get_object(self, **kw):
        def effect():
            try:
                with open(self._file(kw['Key']), 'rb') as f: _, d, v = pickle.load(f)
            except FileNotFoundError: raise NoSuchKey(kw['Key']) from None
            return {'VersionId' : v, 'Body' : Body(d), 'ContentLength' : len(d), 'ContentType' : 'binary/octet-stream', 'Metadata' : {}, 'LastModified' : None}
        return self._call('get_object', kw, effect)

    def put_object(self, **kw):
        def effect():
            self.put(kw['Key'], bytes(kw['Body'] if not isinstance(kw['Body'], str) else kw['Body'].encode()), 'v')
            return {'VersionId' : 'v'}
        return self._call('put_object', kw, effect)

    def delete_object(self, **kw):
        def effect():
            try: self.drop(kw['Key'])
            except FileNotFoundError: pass
            return {}
        return self._call('delete_object', kw, effect)

    def create_multipart_upload(self, **kw):
        def effect():
            n = len(os.listdir(self.path + '/uploads')); uid = 'u%d' % n
            while os.path.exists(self.path + '/uploads/' + uid): n += 1; uid = 'u%d' % n
            os.mkdir(self.path + '/uploads/' + uid)
            with open(self.path + '/uploads/' + uid + '/key', 'w') as f: f.write(kw['Key'])
            return {'UploadId' : uid}
        return self._call('create_multipart_upload', kw, effect)

    def _upload(self, kw):
        d = self.path + '/uploads/' + kw['UploadId']
        try: key = open(d + '/key').read()
        except FileNotFoundError: raise ClientError('NoSuchUpload') from None
        if key != kw['Key']: raise ClientError('NoSuchUpload')
        return d

    def upload_part(self, **kw):
        def effect():
            d = self._upload(kw)
            if not 1 <= kw['PartNumber'] <= 10000: raise ClientError('InvalidArgument')
            body = kw['Body'] if isinstance(kw['Body'], (bytes, bytearray)) else kw['Body'].read()
            with open(d + '/%05d' % kw['PartNumber'], 'wb') as f: f.write(body)
            return {'ETag' : hashlib.md5(body).hexdigest()}
        return self._call('upload_part', kw, effect)

    def complete_multipart_upload(self, **kw):
        def effect():
            d = self._upload(kw)
            parts = kw['MultipartUpload']['Parts']
            if not parts: raise ClientError('MalformedXML')
            data = b''; last = 0
            for i, p in enumerate(parts):
                if p['PartNumber'] <= last: raise ClientError('InvalidPartOrder')
                last = p['PartNumber']
                try: b = open(d + '/%05d' % p['PartNumber'], 'rb').read()
                except FileNotFoundError: raise ClientError('InvalidPart') from None
                if hashlib.md5(b).hexdigest() != p['ETag']: raise ClientError('InvalidPart')
                if i + 1 < len(parts) and len(b) < self.min_part: raise ClientError('EntityTooSmall')
                data += b
            self.put(kw['Key'], data, 'v')
            self._forget(d)
            return {'VersionId' : 'v'}
        return self._call('complete_multipart_upload', kw, effect)

    def _forget(self, d):
        for n in os.listdir(d): os.remove(d + '/' + n)
        os.rmdir(d)

    def abort_multipart_upload(self, **kw):
        def effect():
            self._forget(self._upload(kw)); return {}
        return self._call('abort_multipart_upload', kw, effect)

    def list_multipart_uploads(self, **kw):
        def effect():
            out = {'IsTruncated' : False}
            u = [{'Key' : open(self.path + '/uploads/' + n + '/key').read(), 'UploadId' : n} for n in self.uploads()]
            if u: out['Uploads'] = u
            return out
        return self._call('list_multipart_uploads', kw, effect)
