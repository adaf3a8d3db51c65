""" generated sequences of requests on several connections, users, addresses and repositories against a real server, with every way an attempt can end; a model says who holds what and what may be offered for resumption """
import json, socket, struct, time, errno
from vlib import gen
from vlib.core import ERR, ERR_FROM, KILL
from vlib.hist import Hist
from vlib.wire import WireError, sha
from vlib.world import World

LEVEL = 'fault_enumeration'
RULE = ('a case is a sequence of requests, in and out of order, by up to five connections of three users from three addresses on two repositories. Attempts end by commit, abort, refusals, closed, reset and half-sent connections, broken requests, failing file-system operations, death of the server, and clients that fall silent (the waiting times of the server divided by 200); after each end another permitted client begins a commit at once (connections that ended without a reply are noticed within a '
        'bounded number of requests), what it is offered and what it publishes is compared with the model. An evaluation is one ended attempt; distinct by the way it ended, its step, and the relation of the next client to it')
ASSUMPTIONS = ['while a connection holds the lock of one repository it is not used for others', 'the lock itself (flock) works']
REQUIRED = ['ended_commit', 'ended_abort', 'ended_close', 'ended_reset', 'ended_half_sent', 'ended_outdated', 'ended_broken_request', 'ended_fault', 'ended_server_died', 'ended_expired', 'ended_elsewhere', 'ended_silent', 'begun_after', 'by_same', 'by_other_user', 'by_other_address', 'offered', 'not_offered', 'refused_while_held', 'out_of_order', 'other_repository_meanwhile', 'revisions_verified', 'not_permitted']
QUICK_WALL = 22
THOROUGH_WALL = 700

def plan(tier): return 400 if tier == 'quick' else 8000

REPOS = ('repo', 'other')
USERS = {'ann' : REPOS, 'bob' : REPOS, 'eve' : ('other',)}
SRC = ['127.250.0.2', '127.250.0.3', '127.250.0.4']

class Attempt:
    def __init__(self, user, src): self.user = user; self.src = src; self.changes = {}; self.sure = True

class Conn:
    def __init__(self, w, user, repo, src): self.w = w; self.user = user; self.repo = repo; self.src = src

class Run:
    def __init__(self, ctx):
        rng = ctx.rng; self.ctx = ctx; self.rng = rng
        def extra(config):
            for u, rs in USERS.items(): config['users'][u]['uses_repositories'] = list(rs)
        self.world = World(ctx, repos = REPOS, users = tuple(USERS), extra_config = extra, watch_server = True)
        self.hist = {r : Hist() for r in REPOS}
        self.holder = {r : None for r in REPOS}      # Conn
        self.active = {r : None for r in REPOS}      # Attempt: that of the holder, or what an ended one left
        self.conns = []
        self.pool = gen.paths(rng, 6)
        self.clock = 0
        self.n = 0

    # ------------------------------------------------ connections
    def connect(self, user = None, repo = None, src = None):
        rng = self.rng
        repo = repo or rng.choice(REPOS)
        user = user or rng.choice([u for u in USERS if repo in USERS[u]])
        src = src or rng.choice(SRC)
        w = self.world.wire(repo, user, src) # logging in has to work whatever others do
        c = Conn(w, user, repo, src); self.conns.append(c)
        return c

    def drop(self, c):
        if c in self.conns: self.conns.remove(c)
        c.w.close()

    def data(self):
        self.n += 1
        return b'%d %d ' % (self.ctx.index, self.n) + b'x' * self.rng.choice([0, 10, 3000, 200000])

    def model_begin(self, c): 
        """ what a begin by c on the current head makes of what is left -> the changes that have to be offered, None: unknown """
        r = c.repo; old = self.active[r]
        if old is not None and old.user == c.user and old.src == c.src:
            offered = {p : x for p, x in old.changes.items() if x[0] != 'deleted'} if old.sure else None
            old.changes = {p : x for p, x in old.changes.items() if x[0] != 'deleted'} # deletions have to be sent again
        else:
            offered = {}
            self.active[r] = Attempt(c.user, c.src)
        self.holder[r] = c
        return offered

    def begin(self, c, expect = True, what = ''):
        """ on the current head """
        ctx = self.ctx
        old = self.active[c.repo]
        h, partial = c.w.begin(self.hist[c.repo].head)
        ctx.check(h['status'] == 'ok', what + ': another client can not begin a commit: ' + h.get('msg', ''))
        self.begun(c, partial, old, what)

    def begun(self, c, partial, old, what):
        ctx = self.ctx
        if old is not None and getattr(old, 'either', False): # it may have been discarded since
            old.either = False
            if not partial: self.active[c.repo] = None
        offered = self.model_begin(c)
        got = {p['path'] : (p['status'], p['hash']) for p in partial}
        if offered is None:
            for p in got: ctx.check(got[p] in old.maybe.get(p, ()), what + ': something is offered for resumption which was not sent in this attempt', (p, got[p]))
            self.active[c.repo].changes = dict(got)
            # deletions are not offered, the model starts from what is certain
            self.clear(c)
        else:
            ctx.check(got == offered, what + ': what is offered for resumption is not what was left', {'offered' : sorted(got), 'expected' : sorted(offered), 'by' : (c.user, c.src), 'of' : old and (old.user, old.src)})
        ctx.count('offered' if got else 'not_offered')

    def clear(self, c):
        """ starts again with nothing """
        h = c.w.abort(); self.ctx.check(h['status'] == 'ok', 'an abort is refused: ' + h.get('msg', ''))
        self.ended(c, 'abort', leftover = False)
        h, partial = c.w.begin(self.hist[c.repo].head)
        self.ctx.check(h['status'] == 'ok', 'begin after an abort is refused: ' + h.get('msg', ''))
        self.ctx.check(not partial, 'an aborted attempt is offered for resumption', partial)
        self.active[c.repo] = Attempt(c.user, c.src); self.holder[c.repo] = c

    def ended(self, c, how, leftover = True):
        r = c.repo
        self.holder[r] = None
        if not leftover: self.active[r] = None
        self.ctx.count('ended_' + how); self.ctx.note('ended by', how, c.user, c.src, r)

    # ------------------------------------------------ what a holder does
    def do_push(self, c, p = None):
        files = self.hist[c.repo].files; at = self.active[c.repo]
        p = p or self.rng.choice(self.pool)
        if not gen.compatible(p, list(files) + list(at.changes)): return
        d = self.data()
        h = c.w.push(p, d)
        self.ctx.check(h['status'] == 'ok', 'a push by the holder of the lock is refused: ' + h.get('msg', ''), repr(p))
        at.changes[p] = ('changed' if p in files else 'new', sha(d), d)[:2]
        self.store[sha(d)] = d

    store = {}

    def do_delete(self, c):
        files = self.hist[c.repo].files; at = self.active[c.repo]
        l = self.rng.sample(sorted(set(files) | set(at.changes)), min(len(set(files) | set(at.changes)), self.rng.choice([1, 2])))
        if not l: return
        h = c.w.delete(l)
        self.ctx.check(h['status'] == 'ok', 'a delete by the holder of the lock is refused: ' + h.get('msg', ''))
        for p in l:
            at.changes.pop(p, None)
            if p in files: at.changes[p] = ('deleted', None)

    def outcome(self, r):
        files = dict(self.hist[r].files); changes = {}
        for p, (s, h) in self.active[r].changes.items():
            changes[p] = s
            if s == 'deleted': files.pop(p, None)
            else: files[p] = self.store[h]
        return files, changes

    def do_commit(self, c):
        r = c.repo
        files, changes = self.outcome(r)
        h = c.w.commit('m%d' % self.n)
        self.ctx.check(h['status'] == 'ok', 'a commit by the holder of the lock is refused: ' + h.get('msg', ''))
        self.published(c, h['head'], files, changes, 'm%d' % self.n)
        self.ended(c, 'commit', leftover = False)

    def published(self, c, head, files, changes, msg):
        if changes: self.hist[c.repo].add(head, c.user, msg, files = files, changes = changes)
        self.hist[c.repo].verify(self.ctx, c.w, revs = self.hist[c.repo].revs[-1:], what = 'after a commit')
        self.ctx.count('revisions_verified')

    def step(self, c):
        """ one more request of the holder """
        k = self.rng.choice(['push', 'push', 'push', 'delete', 'begin', 'outdated_begin', 'read'])
        if k == 'push': self.do_push(c)
        elif k == 'delete': self.do_delete(c)
        elif k == 'read': self.ctx.check(c.w.list_versions() is not None, 'reading is refused during a commit')
        else: # it holds the lock, nothing changes
            h, _ = c.w.begin(self.hist[c.repo].head if k == 'begin' else 'f' * 64)
            self.ctx.check(h['status'] != 'ok', 'begin inside of a commit is accepted')
            self.ctx.count('out_of_order')

    # ------------------------------------------------ ends
    def poll(self, r, what):
        """ a connection was closed without a word: another client begins as soon as it was noticed """
        c = self.connect(repo = r, **self.relation(r))
        old = self.active[r]
        for _ in range(4000):
            h, partial = c.w.begin(self.hist[r].head)
            if h['status'] == 'ok': self.begun(c, partial, old, what); break
            self.ctx.check('lock' in h.get('msg', '').lower(), what + ': begin is refused: ' + h.get('msg', ''))
            time.sleep(0.002)
        else: self.ctx.check(False, what + ': the repository stays locked')
        return c

    def relation(self, r):
        """ who is next, in relation to the attempt that ended """
        rng = self.rng; at = self.active[r] or self.last
        k = rng.choice(['same', 'user', 'address', 'any'])
        if at is None or k == 'any' or r not in USERS[at.user]: return {}
        users = [u for u in USERS if r in USERS[u]]
        if k == 'same': self.ctx.count('by_same'); return {'user' : at.user, 'src' : at.src}
        if k == 'user': self.ctx.count('by_other_user'); return {'user' : rng.choice([u for u in users if u != at.user]), 'src' : at.src}
        self.ctx.count('by_other_address'); return {'user' : at.user, 'src' : rng.choice([s for s in SRC if s != at.src])}

    def next(self, r, what):
        """ right after the end """
        free = [x for x in self.conns if x.repo == r]
        if free and self.rng.random() < 0.3: c = self.rng.choice(free)
        else: c = self.connect(repo = r, **self.relation(r))
        self.begin(c, what = what)
        self.ctx.count('begun_after')
        return c

    def end(self, c):
        """ the holder's attempt ends somehow -> the next holder """
        ctx = self.ctx; rng = self.rng; r = c.repo
        self.last = Attempt(c.user, c.src)
        steps = len(self.active[r].changes)
        how = rng.choice(['commit', 'commit', 'abort', 'close', 'close', 'reset', 'half_sent', 'broken_request', 'fault', 'fault', 'server_died', 'expired', 'elsewhere', 'elsewhere'])
        what = 'an attempt ended (%s)' % how
        ctx.note('end', how, c.user, c.src, r, sorted(self.active[r].changes))
        if how == 'commit': self.do_commit(c); n = self.next(r, what)
        elif how == 'abort':
            h = c.w.abort(); ctx.check(h['status'] == 'ok', 'an abort is refused: ' + h.get('msg', ''))
            self.ended(c, 'abort', leftover = False)
            if rng.random() < 0.5: self.sneak(c)
            n = self.next(r, what)
        elif how in ('close', 'reset', 'half_sent'):
            if how == 'half_sent':
                p = rng.choice(self.pool)
                pre = c.w.preamble(*rng.choice([('push_file', c.w.base(path = p), 5000), ('commit', c.w.base(commit_message = 'x', mode = 'commit'), 50), ('delete_files', c.w.base(), 100), ('begin_commit', c.w.base(previous_revision = 'root', user = ''), 5)]))
                c.w.send_raw(rng.choice([pre[:rng.randrange(1, len(pre))], pre, pre + b'{' * 3]))
                # complete requests are acted upon although their body is missing
                if b'\r\n\r\n' in pre and b'/commit ' in pre: self.active[r].sure = None
            if how == 'reset': c.w.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            self.drop(c); self.ended(c, how)
            if self.active[r].sure is None: self.settle(c, r, what)
            if rng.random() < 0.3: self.outdated(r)
            n = self.poll(r, what)
        elif how == 'broken_request':
            bad = [('push_file', c.w.base(), b'no path'), ('commit', {'session_token' : c.w.session, 'repository' : r}, b'{}'), ('commit', c.w.base(commit_message = 'x'), b'{}'), ('nothing', c.w.base(), b'{}'),
                   ('push_file', c.w.base(path = '../x'), b'data'), ('push_file', c.w.base(path = '/a/../../x'), b'data'), ('begin_commit', c.w.base(), b'{}'), ('delete_files', c.w.base(), b'nothing'),
                   ('delete_files', c.w.base(), json.dumps({'files' : '[{"x" : 1}]'}).encode()), ('delete_files', c.w.base(), json.dumps({'files' : '7'}).encode()), ('pull_file', c.w.base(), b'{}'), ('list_changes', c.w.base(), b''),
                   ('find_changed', c.w.base(previous_revision = 'x' * 64, include_unchanged = '0'), b'{"client_changes" : "{}"}'), ('list_files', c.w.base(show_head = '0', version_id = 'zz'), b'{}')]
            b = rng.choice(bad)
            broke = False
            try: h, _ = c.w.req(*b); ctx.check(h['status'] != 'ok' or b[0] in ('find_changed', 'list_files', 'list_changes', 'pull_file'), what + ': a broken request is accepted', b)
            except WireError: broke = True
            ctx.note('broken', b[0], b[2], broke)
            if broke: # the server gave up the connection
                self.drop(c); self.ended(c, how); n = self.next(r, what + ' %r' % (b,))
            else: # the attempt goes on, and ends as usual
                ctx.count('ended_broken_request')
                others = self.connect(repo = r)
                h, _ = others.w.begin(self.hist[r].head)
                ctx.check(h['status'] != 'ok', 'two commits at once'); self.drop(others)
                if rng.random() < 0.5: self.do_commit(c); n = self.next(r, what)
                else: self.drop(c); self.ended(c, 'close'); n = self.poll(r, what)
        elif how == 'fault': n = self.fault(c, r, what)
        elif how == 'elsewhere': # the lock of one repository must be worth nothing in another one
            o = [x for x in REPOS if x != r][0]
            users = [u for u in USERS if o in USERS[u]]
            w = self.world.wire(o, c.user if c.user in users else users[0], c.src)
            h = rng.choice([lambda: c.w.req('push_file', w.base(path = rng.choice(self.pool)), b'elsewhere')[0], lambda: c.w.req('delete_files', w.base(), json.dumps({'files' : json.dumps([{'path' : p} for p in (sorted(self.hist[o].files) or ['/x'])[:2]])}).encode())[0],
                            lambda: c.w.req('commit', w.base(commit_message = 'x', mode = 'commit'), b'{}')[0], lambda: c.w.req('commit', w.base(commit_message = 'x', mode = 'abort'), b'{}')[0]])()
            ctx.check(h['status'] != 'ok', 'with the lock of one repository, a change in another one is accepted')
            ctx.check(w.get_head() == self.hist[o].head, 'with the lock of one repository, a revision was created in another one')
            w.close()
            if self.holder[o] is not None and rng.random() < 0.7: self.do_commit(self.holder[o])
            self.drop(c); self.ended(c, how); n = self.poll(r, what)
        elif how == 'server_died':
            if rng.random() < 0.3: # in the middle of something
                if rng.random() < 0.5: self.world.server.rules([{'action' : 'push_file', 'do' : rng.choice(['kill', 'kill_after'])}])
                else: # where it is noted what is stored, and it is not stored yet
                    self.world.server.ask('only', 0, '/files/'); self.world.server.arm(rng.choice([0, 0, 1]), KILL, 0)
                p = rng.choice(self.pool); d = self.data(); self.store[sha(d)] = d
                if gen.compatible(p, list(self.hist[r].files) + list(self.active[r].changes)):
                    try: c.w.push(p, d)
                    except WireError: pass
                    at = self.active[r]; at.sure = False
                    at.maybe = {q : {x} for q, x in at.changes.items()}
                    at.maybe.setdefault(p, set()).add(('changed' if p in self.hist[r].files else 'new', sha(d)))
            for x in list(self.conns): self.drop(x)
            self.world.server.restart()
            self.ended(c, how)
            other = [x for x in REPOS if x != r][0]
            self.holder[other] = None
            n = self.next(r, what)
        else: # the sessions expire
            self.clock += 7300; self.world.server.clock(self.clock)
            # that of a commit in progress may live on, because uploads take long
            files, changes = self.outcome(r)
            if rng.random() < 0.5:
                h = c.w.commit('late')
                if h['status'] == 'ok':
                    self.published(c, h['head'], files, changes, 'late'); self.active[r] = None
            for x in list(self.conns):
                if x.repo != r and self.holder[x.repo] is x: self.holder[x.repo] = None
                self.drop(x)
            self.ended(c, how)
            n = self.poll(r, what)
        if how in ('server_died', 'expired'): # the other repository as well
            other = [x for x in REPOS if x != r][0]
            m = self.poll(other, what)
            if rng.random() < 0.5: self.do_commit(m)
        ctx.evaluated((how, min(steps, 3), (n.user == self.last.user, n.src == self.last.src)))
        return n

    def outdated(self, r):
        """ what was left meets an attempt on another revision first """
        x = self.connect(repo = r)
        for _ in range(4000):
            h, _ = x.w.begin('e' * 64)
            self.ctx.check(h['status'] != 'ok', 'begin on another revision than the head is accepted')
            if 'lock' not in h.get('msg', '').lower(): break
            time.sleep(0.002)
        self.ctx.count('ended_outdated')
        if self.active[r] is not None: self.active[r].either = True
        if self.rng.random() < 0.7: self.drop(x)

    def silent(self, r):
        """ the holder says nothing any more. The server's waiting times are divided by 200 """
        ctx = self.ctx; rng = self.rng
        what = 'a client fell silent during a commit'
        for x in list(self.conns):
            if self.holder[x.repo] is x: self.holder[x.repo] = None
            self.drop(x)
        self.world.wait_unlocked(r)
        self.world.server.ask('patience', 200)
        try:
            try:
                c = self.connect(repo = r)
                old = self.active[r]
                h, partial = c.w.begin(self.hist[r].head)
                ctx.check(h['status'] == 'ok', what + ': begin is refused: ' + h.get('msg', ''))
                self.begun(c, partial, old, what)
                self.do_push(c)
                at = rng.choice(['between requests', 'in a header', 'in an upload'])
                pre = c.w.preamble('push_file', c.w.base(path = '/never'), 5000)
                if at == 'in a header': c.w.send_raw(pre[:rng.randrange(1, len(pre))])
                elif at == 'in an upload': c.w.send_raw(pre + b'x' * rng.choice([0, 1, 4000]))
            except WireError: return # too slow
            self.holder[r] = None; self.last = Attempt(c.user, c.src)
            end = time.time() + 30
            rel = self.relation(r)
            while True:
                h = None
                try:
                    n = self.connect(repo = r, **rel)
                    h, partial = n.w.begin(self.hist[r].head)
                except WireError: pass
                if h is not None:
                    if h['status'] == 'ok': break
                    ctx.check('lock' in h.get('msg', '').lower(), what + ': begin is refused: ' + h.get('msg', ''))
                for x in list(self.conns):
                    if x is not c: self.drop(x)
                ctx.check(time.time() < end, what + ' (%s): the repository stays locked for hours' % at)
                time.sleep(0.1)
            old = self.active[r]
            offered = self.model_begin(n)
            if offered is not None:
                got = {p['path'] : (p['status'], p['hash']) for p in partial}
                ctx.check(got == offered, what + ': what is offered for resumption is not what was left', {'offered' : sorted(got), 'expected' : sorted(offered)})
            for x in list(self.conns): self.drop(x)
            self.holder[r] = None; self.ended(c, 'silent')
            if self.active[r] is not None: self.active[r].either = False
        finally: self.world.server.ask('patience', 0)
        self.world.wait_unlocked(r)
        ctx.evaluated(('silent', at, bool(partial)))

    def settle(self, c, r, what):
        """ the attempt may have been published """
        w = self.world.wire(r, 'ann', '127.250.0.9')
        self.world.wait_unlocked(r)
        if w.get_head() != self.hist[r].head:
            files, changes = self.outcome(r)
            self.hist[r].add(w.get_head(), c.user, '', files = files, changes = changes)
            self.hist[r].verify(self.ctx, w, revs = self.hist[r].revs[-1:], what = what)
            self.active[r] = None
        else: self.active[r].sure = True
        w.close()

    def sneak(self, c):
        """ requests of somebody without a commit in progress """
        h = self.rng.choice([lambda: c.w.push(self.rng.choice(self.pool), b'x'), lambda: c.w.delete(sorted(self.hist[c.repo].files)[:1] or ['/x']), lambda: c.w.commit('x'), c.w.abort])()
        self.ctx.check(h['status'] != 'ok', 'a request that needs the lock is accepted without')
        self.ctx.count('out_of_order')

    def fault(self, c, r, what):
        """ a file-system operation of the server fails """
        ctx = self.ctx; rng = self.rng
        at = self.active[r]
        files, changes = self.outcome(r)
        k = rng.choice(['push', 'push', 'delete', 'commit', 'commit', 'abort'])
        maybe = {q : {x} for q, x in at.changes.items()}
        if k == 'push' and rng.random() < 0.5: # what is sent can not be put where it belongs
            self.world.server.ask('only', 0, '/files/'); self.world.server.arm(0, ERR_FROM, errno.ENOSPC)
        else: self.world.server.arm(rng.randrange(rng.choice([3, 8, 25])), ERR, rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]))
        broke = False; h = None
        try:
            if k == 'push':
                p = rng.choice(self.pool); d = self.data(); self.store[sha(d)] = d
                if not gen.compatible(p, list(self.hist[r].files) + list(at.changes)): p = '/plain'
                maybe.setdefault(p, set()).add(('changed' if p in self.hist[r].files else 'new', sha(d)))
                h = c.w.push(p, d)
            elif k == 'delete': h = c.w.delete(rng.sample(sorted(set(files) | {'/x'}), 1))
            elif k == 'commit': h = c.w.commit('fault')
            else: h = c.w.abort()
        except WireError: broke = True
        fired = self.world.server.opcount()[1]
        self.world.server.disarm(); self.world.server.ask('only', 0, '')
        ctx.note('fault in', k, 'fired', fired, 'connection broken', broke, h)
        w = self.world.wire(r, 'ann', '127.250.0.9')
        head = w.get_head()
        if head != self.hist[r].head:
            ctx.check(k == 'commit', what + ': a revision was created by something else than a commit', k)
            self.hist[r].add(head, c.user, 'fault', files = files, changes = changes)
            self.hist[r].verify(ctx, w, revs = self.hist[r].revs[-1:], what = what); at = None
        w.close()
        if not broke and h['status'] != 'ok': ctx.check(fired, what + ': refused without a fault', h)
        if at is not None: at.sure = False; at.maybe = maybe
        self.active[r] = at
        if at is None or not broke and h['status'] == 'ok' and k in ('commit', 'abort'): self.active[r] = None
        if broke:
            self.drop(c); self.ended(c, 'fault'); return self.next(r, what + ' in ' + k)
        if h['status'] == 'ok' and k in ('commit', 'abort'):
            self.ended(c, 'fault'); return self.next(r, what + ' in ' + k)
        # the connection is still there, and so may be the lock
        if rng.random() < 0.5:
            h = c.w.abort()
            if h['status'] == 'ok':
                self.active[r] = None
                self.ended(c, 'fault'); return self.next(r, what + ' in ' + k + ', abort')
        self.drop(c); self.ended(c, 'fault')
        return self.poll(r, what + ' in ' + k + ', closed')

def case(ctx):
    rng = ctx.rng
    run = Run(ctx); run.store = {}; run.last = None
    for r in REPOS: # something to begin with
        if rng.random() < 0.7:
            c = run.connect(repo = r); run.begin(c)
            for _ in range(3): run.do_push(c)
            run.do_commit(c)
    for _ in range(10 if ctx.quick else 40):
        r = rng.choice(REPOS)
        c = run.holder[r]
        if c is None:
            c = run.connect(repo = r); run.begin(c, what = 'free repository')
        for _ in range(rng.choice([0, 1, 2, 4])): run.step(c)
        if rng.random() < 0.5: # others in between
            x = run.connect(repo = r)
            h, _ = x.w.begin(run.hist[r].head if rng.random() < 0.7 else 'root')
            ctx.check(h['status'] != 'ok', 'two commits at once'); ctx.count('refused_while_held')
            if rng.random() < 0.5: run.sneak(x)
            if rng.random() < 0.7: run.drop(x)
        if rng.random() < 0.2: # somebody who may not
            w = run.world.wire('other', 'eve', rng.choice(SRC))
            h = w.req('begin_commit', {'session_token' : w.session, 'repository' : 'repo', 'user' : 'ann', 'previous_revision' : run.hist['repo'].head}, b'{}')[0]
            ctx.check(h['status'] != 'ok', 'a user begins a commit in a repository not permitted'); ctx.count('not_permitted')
            w.close()
        if rng.random() < 0.3:
            o = [x for x in REPOS if x != r][0]
            if run.holder[o] is None:
                x = run.connect(repo = o); run.begin(x, what = 'while another repository is locked')
                run.do_push(x)
                if rng.random() < 0.6: run.do_commit(x)
                ctx.count('other_repository_meanwhile')
        n = run.end(c)
        if rng.random() < 0.3 and run.holder[r] is n: # give it up, and let an outdated one follow
            h = n.w.abort(); run.ended(n, 'abort', leftover = False)
            for _ in range(rng.choice([1, 2])):
                x = run.connect(repo = r)
                wrong = rng.choice(['f' * 64, 'x', ''] + [v.id for v in run.hist[r].revs[:-1]] + (['root'] if run.hist[r].revs else []))
                try: h, _ = x.w.begin(wrong); ctx.check(h['status'] != 'ok', 'begin on another revision than the head is accepted')
                except WireError: pass
                ctx.count('ended_outdated')
                if rng.random() < 0.5: run.sneak(x)
            run.last = Attempt(x.user, x.src)
            n = run.next(r, 'an outdated begin was refused')
        if len(run.conns) > 6:
            for x in list(run.conns):
                if run.holder[x.repo] is not x: run.drop(x)
    if ctx.index % 4 == 1:
        run.silent(rng.choice(REPOS))
        for r in REPOS:
            if run.holder[r] is None: run.poll(r, 'the connections were closed')
    for r in REPOS:
        c = run.holder[r]
        if c is None: c = run.connect(repo = r); run.begin(c, what = 'in the end')
        run.do_push(c); run.do_commit(c)
        run.hist[r].verify(ctx, c.w, what = 'in the end')
    ctx.sample({'revisions' : [len(run.hist[r].revs) for r in REPOS]})
