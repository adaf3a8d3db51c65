""" generated repositories backed up by the real backup command to a stand-in for the remote store, with failures and deaths at its calls, then restored by the real restore command and compared, revision by revision, through a real server """
import os, json
from vlib import gen
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM
from vlib.hist import Hist, client_commit, expected
from vlib.s3 import S3
from vlib.wire import sha
from vlib.world import World, Server, run_repo

LEVEL = 'exploration'
RULE = ('a case makes histories in one to three repositories (some of them empty, not backed up, or with a separate place for the transient data), with the chunk size changed or the salt lost from the remote store between runs, with object sizes around the chunk size and repeated contents, and backs them up in several rounds; backups and restores are made to fail or die at generated calls to the remote store, before or after the call took effect, or (restores) at their writes to the disk, half way through as well, and repeated. '
        'After a completed backup everything is restored and a real server on the restored repositories has to say the same about every revision, the verify command has to find nothing, and a commit has to be possible. An evaluation is one restored repository; distinct by numbers of revisions, objects, rounds, failures and sizes')
ASSUMPTIONS = ['the remote store behaves as documented by its stand-in in vlib/s3.py: a multipart upload appears when it is completed, listings come in pages', 'the history of the remote is a prefix of the local one', 'revisions are compared through the listing of at most 52 revisions']
REQUIRED = ['backups_completed', 'backups_failed', 'backups_killed', 'restores_completed', 'restores_failed', 'restores_killed', 'restores_with_disk_faults', 'incremental', 'chunk_sized', 'empty_files', 'empty_repositories', 'left_out_repositories', 'several_repositories', 'paged_listings', 'listings_of_many_pages', 'repeated', 'verified_clean', 'further_commits', 'separate_transient', 'bucket_without_versions', 'reads_checked', 'long_histories', 'chunk_size_changed', 'salt_lost']
QUICK_WALL = 24
THOROUGH_WALL = 700
NEEDS_REPO_MANAGER = True

def plan(tier): return 72 if tier == 'quick' else 3000

NAMES = ['repo', 'second', 'ré po', 'repository', 'rep', 'files', 'head', 'commits']

def long_history(ctx): return ctx.index % 24 == 9

class Case:
    def __init__(self, ctx):
        rng = ctx.rng; self.ctx = ctx; self.rng = rng
        self.names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        self.chunk = rng.choice([1, 16, 64, 100, 1000, 4096, 65536, 1048576])
        if long_history(ctx): self.chunk = max(self.chunk, 100) # or it takes as many calls as there are bytes
        self.separate = {n for n in self.names if rng.random() < 0.25}
        def extra(config):
            for n in self.separate:
                d = os.path.join(ctx.dir, 'transient%d' % self.names.index(n)); os.makedirs(d)
                config['repositories'][n]['transient_db_path_override'] = os.path.join(d, 'db')
        self.world = World(ctx, repos = tuple(self.names), extra_config = extra)
        self.hist = {n : Hist() for n in self.names}
        self.backed = {n : rng.random() < 0.85 or i == 0 for i, n in enumerate(self.names)}
        self.s3 = S3(os.path.join(ctx.dir, 's3'), page = 7 if long_history(ctx) else rng.choice([1, 1, 2, 3, 7, 1000]), min_part = self.chunk)
        self.fresh = rng.random() < 0.2
        if self.fresh: self.s3.versioning(rng.choice(['none', 'Suspended'])); ctx.count('bucket_without_versions')
        self.password = rng.choice(['password', 'pässwörd', 'x' * 100, '日本'])
        if self.separate: ctx.count('separate_transient')
        if len(self.names) > 1: ctx.count('several_repositories')
        self.failures = 0

    def reconfigure(self):
        """ what may change between two runs: the chunk size, and the remote store may have lost the salt (each object says with which it was stored) """
        rng = self.rng
        if rng.random() < 0.4 and not long_history(self.ctx):
            self.chunk = self.s3.min_part = rng.choice([16, 64, 100, 1000, 4096, 65536]); self.ctx.count('chunk_size_changed')
        if rng.random() < 0.3 and 'salt_file' in self.s3.all():
            self.s3.drop('salt_file'); self.ctx.count('salt_lost')

    def config(self):
        c = {'repositories' : {}, 's3' : {'access_key' : 'a', 'secret_key' : 's', 'bucket' : 'b'}, 'crypto' : {'crypt_password' : self.password}, 'chunk_size' : self.chunk}
        for n, d in self.world.config['repositories'].items():
            c['repositories'][n] = dict(d)
            if self.backed[n]: c['repositories'][n]['backup'] = True
            elif self.rng.random() < 0.5: c['repositories'][n]['backup'] = False
        return c

    # ------------------------------------------------ history
    def content(self):
        rng = self.rng; k = rng.randrange(6)
        if k == 0: return gen.content(rng, big = 0)
        if k == 1: self.ctx.count('empty_files'); return b''
        if k == 2: return b'shared-%d' % rng.randrange(3)
        n = self.chunk * rng.choice([1, 1, 2, 3]) + rng.choice([-1, 0, 1])
        if self.chunk > 100000 and rng.random() < 0.7: n = rng.choice([10, 5000])
        elif self.chunk < 64: n = min(n, 12) + rng.randrange(10)
        self.ctx.count('chunk_sized')
        u = gen.unique(rng)
        return (u * (n // len(u) + 1))[:max(n, 0)]

    def commit(self, n):
        rng = self.rng; h = self.hist[n]
        user = rng.choice(['ann', 'bob'])
        w = self.world.wire(n, user)
        pool = self.pool.setdefault(n, gen.paths(rng, 6)) if hasattr(self, 'pool') else None
        if pool is None: self.pool = {n : gen.paths(rng, 6)}; pool = self.pool[n]
        if self.chunk == 1 : pool = pool[:3]
        puts = {p : self.content() for p in rng.sample(pool, rng.choice([1, 2, min(3, len(pool))]))}
        deletes = [p for p in sorted(h.files) if p not in puts and rng.random() < 0.3]
        msg = rng.choice(['message', 'ümlaut 日本', 'line\nbreak', ''])
        r = client_commit(w, h.head, puts, deletes, msg)
        self.ctx.check(r['status'] == 'ok', 'a commit was refused', r)
        files, changes = expected(h.files, puts, deletes)
        h.add(r['head'], user, msg, files = files, changes = changes)
        w.close()

    # ------------------------------------------------ backup and restore
    def faults(self):
        rng = self.rng
        n = rng.randrange(rng.choice([6, 20, 60, 150]))
        return {n : (rng.choice(['kill', 'io', 'client', 'other']), rng.choice(['before', 'after']))}

    def disk_fault(self):
        """ at the files that are written: dies, half way through as well, or the disk is full or fails """
        rng = self.rng
        k = rng.randrange(rng.choice([8, 30, 100, 250]))
        if rng.random() < 0.7: return (k, rng.choice([KILL, HALF_KILL, HALF_KILL]), 0)
        return (k, rng.choice([ERR, ERR_FROM]), rng.choice([5, 28, 122]))

    def run(self, cmd, faults = None, arm = None):
        self.s3.arm(faults or {})
        watch = [self.restored(n) if cmd == 'restore' else self.world.config['repositories'][n]['path'] for n in self.names]
        r = run_repo(self.config(), cmd, s3 = self.s3, timeout = 100, arm = arm, watch = watch)
        s3 = r.extra.get('s3')
        fired = list(s3.fired) if s3 is not None else (['kill'] if r.kind == 'killed' else [])
        if arm is not None and r.extra.get('fired'): fired.append(('disk', 'disk'))
        if s3 is not None: self.s3.calls = s3.calls
        self.ctx.note(cmd, faults, r, fired, 'objects', len(self.s3.all()))
        return r, fired

    def backup(self):
        ctx = self.ctx; rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 3])):
            r, fired = self.run('backup', self.faults())
            if r.kind == 'killed': ctx.count('backups_killed')
            elif fired:
                if fired[0][1] != 'abort_multipart_upload' : ctx.check(not r.ok, 'a backup during which a call failed ends well', fired)
                ctx.count('backups_failed')
            else: ctx.check(r.ok or self.fresh, 'a backup fails: %r' % r, r.extra.get('tb')); self.fresh = False
            if fired: self.failures += 1
            if rng.random() < 0.3: self.commit(rng.choice(self.names))
        r, _ = self.run('backup')
        if not r.ok and self.fresh: # it may ask to be started again, once, when it had to enable the versions
            self.fresh = False
            r, _ = self.run('backup')
        ctx.check(r.ok, 'a backup fails: %r' % r, r.extra.get('tb')); ctx.count('backups_completed')
        ctx.check(self.s3.versioning() == 'Enabled', 'a backup is made to a bucket which keeps no versions')
        ctx.check(not self.s3.uploads(), 'a completed backup leaves unfinished uploads', self.s3.uploads())
        if self.s3.page < 7: ctx.count('paged_listings')
        if len(self.s3.all()) > 2 * self.s3.page: ctx.count('listings_of_many_pages')
        # what is on the remote is not sent again; the head is the only thing that changes
        again = [k for k in self.s3.again() if k.split('/', 1)[-1] != 'head']
        ctx.check(not again, 'something that is on the remote was uploaded again', again[:5])
        if rng.random() < 0.4:
            n = len(self.s3.all()); heads = len(self.s3.again())
            r, _ = self.run('backup')
            ctx.check(r.ok, 'a backup of what is backed up fails: %r' % r, r.extra.get('tb')); ctx.count('repeated')
            ctx.check(len(self.s3.all()) == n and len(self.s3.again()) == heads, 'a backup of what is backed up uploads something', self.s3.again()[-5:])

    def restored(self, n):
        return self.world.config['repositories'][n]['path'] + '_restore'

    def clear(self):
        for n in self.names:
            d = self.restored(n)
            for base, dirs, files in os.walk(d, topdown = False):
                for x in files: os.remove(os.path.join(base, x))
                for x in dirs: os.rmdir(os.path.join(base, x))
            if os.path.isdir(d): os.rmdir(d)

    def restore(self):
        ctx = self.ctx; rng = self.rng
        self.clear()
        failed = 0
        for _ in range(rng.choice([0, 1, 2, 3])):
            disk = rng.random() < 0.5
            r, fired = self.run('restore', None if disk else self.faults(), self.disk_fault() if disk else None)
            if disk and fired: ctx.count('restores_with_disk_faults')
            if r.kind == 'killed': ctx.count('restores_killed')
            elif disk and fired and r.ok: # says that all is well, so it has to be
                ctx.count('restores_completed'); return failed
            elif fired: ctx.check(not r.ok, 'a restore during which a call failed ends well', fired); ctx.count('restores_failed')
            else: ctx.check(r.ok, 'a restore fails: %r' % r, r.extra.get('tb'))
            failed += bool(fired)
            if rng.random() < 0.4: self.clear()
        r, _ = self.run('restore')
        ctx.check(r.ok, 'a restore fails: %r' % r, r.extra.get('tb')); ctx.count('restores_completed')
        return failed

    def compare(self, rounds, failed, last):
        """ a server which serves what was restored """
        ctx = self.ctx; rng = self.rng; world = self.world
        world.server.kill()
        config = json.loads(json.dumps(world.config))
        for n in self.names: 
            config['repositories'][n] = {'path' : self.restored(n)}
            if self.backed[n]: os.makedirs(self.restored(n), exist_ok = True)
        config['repositories'] = {n : d for n, d in config['repositories'].items() if self.backed[n]}
        for n in self.names:
            if not self.backed[n]:
                ctx.check(not os.path.exists(self.restored(n)), 'a repository without backup is restored', n); ctx.count('left_out_repositories')
        if 1:
            for n in config['repositories']:
                if not self.hist[n].revs: continue
                r = run_repo({'repositories' : {n : config['repositories'][n]}}, 'verify')
                ctx.check(r.ok, 'verify of the restored repository fails: %r' % r, r.extra.get('tb'))
                ctx.check('No issues' in r.out, 'verify finds something in a restored repository', r.out[-500:])
                ctx.count('verified_clean')
        server = Server(ctx, config, addr = world.server.addr, name = 'restored')
        if not server.start(): ctx.check(False, 'no server on the restored repositories', open(server.log_path).read()[-800:])
        old = world.server; world.server = server
        try:
            for n in config['repositories']:
                h = self.hist[n]
                w = world.wire(n, 'ann')
                if not h.revs:
                    ctx.check(w.get_head() == 'root', 'an empty repository is restored with something in it'); ctx.count('empty_repositories')
                else: h.verify(ctx, w, what = 'restored ' + n)
                if last:
                    # further commits
                    r = client_commit(w, h.head, {'/after' : gen.unique(rng), '/empty' : b''}, [p for p in sorted(h.files) if p != '/empty' and p != '/after'][:1], 'after')
                    ctx.check(r['status'] == 'ok', 'the restored repository takes no commits', r)
                    f, c = expected(h.files, {'/after' : b'', '/empty' : b''}, [])
                    ctx.check(w.get_head() == r['head'] and [v['id'] for v in w.list_versions()][1:50] == [x.id for x in reversed(h.revs)][:49], 'the commit does not follow what was restored')
                    ctx.count('further_commits')
                w.close()
                ctx.evaluated((len(h.revs), sum(len(x.files) for x in h.revs), rounds, self.failures, failed, self.chunk))
        finally:
            server.kill(); world.server = old
        if not last:
            ctx.check(old.start(), 'the server does not start again')

def case(ctx):
    rng = ctx.rng
    c = Case(ctx)
    rounds = rng.choice([1, 2, 3]) if ctx.quick else rng.choice([1, 3, 5])
    for i in range(rounds):
        if i: c.reconfigure()
        for n in c.names:
            if rng.random() < 0.15: continue
            for _ in range(rng.choice([1, 1, 2, 4])): c.commit(n)
        if not i and long_history(ctx):
            for _ in range(rng.choice([55, 70])): c.commit(c.names[0])
            ctx.count('long_histories')
        c.backup()
        if i: ctx.count('incremental')
        last = i == rounds - 1
        if rng.random() < 0.4: c.reconfigure()
        if last or rng.random() < 0.4:
            failed = c.restore()
            c.compare(i + 1, failed, last)
    ctx.sample({'repositories' : c.names, 'revisions' : [len(c.hist[n].revs) for n in c.names], 'chunk_size' : c.chunk, 'objects' : len(c.s3.all())})
