""" census of the repository directory by content after every event, against a model of what was published, is pending, and was cancelled """
import os
from vlib import gen
from vlib.core import KILL, HALF_KILL, OPS
from vlib.hist import Hist, adopt_head
from vlib.world import World, run_repo
from vlib.wire import WireError, sha

LEVEL = 'exploration'
RULE = ('a case is a sequence of commit attempts over raw connections (contents shared between names, users, revisions and with cancelled attempts; uploads repeated, replaced, deleted) that are published, aborted, cut off, '
        'ended by a crash of the server at a random file-system operation (also during the clean-up), then resumed or superseded, with garbage collection and restarts in between; after each event every file below '
        'the repository directory is hashed: published contents exactly once, nothing that only a cancelled attempt uploaded. An evaluation is one census; distinct by event, way of ending and numbers of contents')
ASSUMPTIONS = ['what a finished commit replaced or dropped of its own uploads may stay until garbage collection', 'the receive buffer (tmp_file) is not part of the object store']
REQUIRED = ['census', 'aborted', 'superseded', 'resumed', 'crashed', 'crashed_in_cleanup', 'shared_with_published', 'same_content_twice', 'removed_contents', 'published', 'compared_with_settled']
NEEDS_REPO_MANAGER = True
QUICK_WALL = 18
THOROUGH_WALL = 700

def plan(tier): return 500 if tier == 'quick' else 5000

class Store:
    def __init__(self, ctx, world):
        self.ctx = ctx; self.world = world; self.path = world.store['repo']
        self.sent = {}            # sha -> content, everything ever uploaded
        self.hist = Hist()
        self.pend = set(); self.garbage = set(); self.unclear = set()
        self.settled = self.objects()

    def objects(self):
        """ everything stored in the directories of the repository, whatever it is """
        out = set()
        for base, _, names in os.walk(self.path):
            if base != self.path and 'tmp' not in os.path.relpath(base, self.path): out |= {os.path.join(base, n) for n in names}
        return out

    def settle(self): self.settled = self.objects()

    def gone(self, what):
        """ nothing of a commit that came to nothing is left, neither contents nor listings """
        more = self.objects() - self.settled
        if more:
            def first(p):
                with open(p, 'rb') as f: return f.read(200)
            self.ctx.fail('%s: something of the cancelled commit is still stored' % what, [(p[len(self.path):], first(p)) for p in sorted(more)][:4])
        self.ctx.count('compared_with_settled')
        self.ctx.count('settled_objects', len(self.settled))

    published = property(lambda s: {sha(d) for r in s.hist.revs for d in r.files.values()})

    def found(self):
        out = {}
        for base, _, names in os.walk(self.path):
            # what is received is written beside the stores first, and may be left there by a crash until the next time
            if base == self.path or 'tmp' in os.path.relpath(base, self.path): continue
            for n in names:
                with open(os.path.join(base, n), 'rb') as f: h = sha(f.read())
                if h in self.sent: out[h] = out.get(h, 0) + 1
        return out

    def census(self, what):
        found = self.found(); pub = self.published
        twice = [h for h, n in found.items() if n > 1]
        if twice: self.ctx.fail('%s: the same bytes are stored more than once' % what, [self.sent[h][:60] for h in twice])
        lost = pub - set(found) - {sha(b'')}
        if lost: self.ctx.fail('%s: published content is gone' % what, [self.sent[h][:60] for h in lost])
        left = set(found) - pub - self.pend - self.garbage - self.unclear
        if left: self.ctx.fail('%s: content of a cancelled commit is still stored' % what, [self.sent[h][:60] for h in left])
        self.ctx.count('census')
        self.ctx.evaluated((what, len(found), len(pub), len(self.pend), len(self.garbage)))

def case(ctx):
    rng = ctx.rng
    world = World(ctx, watch_server = True)
    st = Store(ctx, world); hist = st.hist
    pool = gen.paths(rng, 8)
    cancelled = []     # contents of attempts that came to nothing
    owner = None       # who can resume
    uncleaned = False
    steps = rng.choice([6, 10, 14])
    n = 0
    def content():
        r = rng.random()
        if r < 0.2 and hist.revs: d = rng.choice(list(rng.choice(hist.revs).files.values()) or [b'some'])
        elif r < 0.3 and cancelled: d = rng.choice(cancelled)
        elif r < 0.45 and st.sent: d = rng.choice(sorted(st.sent.values()))
        else: d = gen.content(rng, dup = 0.1, big = 0.02, empty = 0)
        d = d or b'not empty'
        if sha(d) in st.published: ctx.count('shared_with_published')
        elif sha(d) in st.sent: ctx.count('same_content_twice')
        st.sent[sha(d)] = d
        return d
    for step in range(steps):
        who = rng.choice([('ann', '127.250.0.2'), ('bob', '127.250.0.3'), ('ann', '127.250.0.4')])
        if owner and rng.random() < 0.4: who = owner
        if rng.random() < 0.12:
            r = run_repo({'repositories' : {'repo' : world.config['repositories']['repo']}}, 'gc')
            ctx.check(r.ok, 'gc fails: %r' % r, r.extra.get('tb'))
            ctx.note('gc')
            st.census('before gc')
            # what an unfinished end of a commit still lists stays until the next commit begins
            keep = st.garbage if uncleaned else st.garbage & st.pend     # leftovers of an earlier commit which the pending one has sent again
            st.garbage = set(keep) if uncleaned else set(); st.unclear &= st.pend
            st.census('gc'); st.garbage = keep
            st.settled &= st.objects(); continue
        if rng.random() < 0.1: world.server.restart()
        w = world.wire(user = who[0], src = who[1])
        ctx.note('begin by', who, 'owner', owner, 'pend', [st.sent[x][:20] for x in st.pend])
        superseding = bool(st.pend) and who != owner
        arm_begin = superseding and rng.random() < 0.25
        if arm_begin: world.server.arm(rng.randrange(40), rng.choice([KILL, HALF_KILL]), 0)
        try: h, partial = w.begin(hist.head)
        except WireError: h = None
        if arm_begin:
            if not world.server.alive():
                ctx.count('crashed_in_cleanup')
                if not world.server.start(): ctx.fail('the server does not start again')
                w.close()
                if h is None:
                    # the clean-up may be half done: what is left may be resumed or goes with the next
                    st.census('crash while superseding'); continue
                w = world.wire(user = who[0], src = who[1]); h, partial = w.begin(hist.head)
                st.census('begin again'); 
            else: world.server.disarm()
        ctx.check(h is not None and h['status'] == 'ok', 'begin_commit on the head is refused', h)
        uncleaned = False
        if superseding:
            cancelled += [st.sent[x] for x in st.pend - st.published]
            ctx.count('removed_contents', len(st.pend - st.published)); st.pend = set(); st.unclear = set(); ctx.count('superseded')
            st.census('superseded'); st.gone('superseded')
        elif st.pend: ctx.count('resumed')
        owner = who
        # uploads
        state = {p['path'] : p['hash'] for p in (partial or [])}
        puts = {}; dropped = set()
        for p in partial or []:
            if rng.random() < 0.2 or p['hash'] not in st.sent:
                w.delete([p['path']])
                if p['path'] in hist.files: dropped.add(p['path'])
            else: puts[p['path']] = st.sent[p['hash']]
        deletes = dropped
        ended = False
        how = rng.choice(['publish', 'publish', 'abort', 'abort', 'close', 'close', 'crash', 'crash', 'crash'])
        ops = rng.choice([1, 2, 3, 6])
        end = rng.choice(['commit', 'commit', 'abort']) if how == 'crash' else how
        late = how == 'crash' and end == 'commit' and rng.random() < 0.35 # between the steps of what is recorded at the end
        if how == 'crash' and not late:
            if end == 'commit' and rng.random() < 0.5: # with everything written but the head
                world.server.ask('only', 0, 'head'); world.server.arm(rng.choice([0, 0, 1, 1, 2]), rng.choice([KILL, HALF_KILL]), 0)
            else: world.server.arm(rng.randrange(30 * ops + 30), rng.choice([KILL, HALF_KILL]), 0)
        try:
            for _ in range(ops):
                k = rng.random()
                if k < 0.75 or not (puts or hist.files):
                    p = rng.choice(sorted(puts) or pool) if rng.random() < 0.2 else rng.choice(pool)
                    if not gen.compatible(p, list(puts) + list(hist.files)): continue
                    d = content()
                    st.pend.add(sha(d))
                    ctx.note('push', p, d[:30])
                    h = w.push(p, d)
                    ctx.check(h['status'] == 'ok', 'an upload is refused', h)
                    puts[p] = d; deletes.discard(p)
                else:
                    p = rng.choice(sorted(set(puts) | set(hist.files)))
                    h = w.delete([p])
                    ctx.check(h['status'] == 'ok', 'a deletion is refused', h)
                    puts.pop(p, None)
                    if p in hist.files: deletes.add(p)
            if rng.random() < 0.3: st.census('during the commit')
            n += 1; msg = 'm%d' % n
            files = dict(hist.files); changes = {}
            for p in deletes: files.pop(p, None); changes[p] = 'deleted'
            for p, d in puts.items(): files[p] = d; changes[p] = 'changed' if p in hist.files else 'new'
            if late: world.server.ask('only', 1 << OPS.index('unlink'), '.db-journal'); world.server.arm(rng.choice([2, 3, 3, 4, 4, 5, 6]), KILL)
            if end in ('commit', 'publish'): h = w.commit(msg)
            elif end == 'abort': h = w.abort()
            if end != 'close': ctx.check(h['status'] == 'ok', 'the end of a commit is refused', h)
            ended = end != 'close'
        except WireError:
            if how != 'crash': raise
        w.close()
        if how == 'crash':
            if not world.server.alive():
                ctx.count('crashed')
                if late: ctx.count('crashed_while_recording')
                if end == 'abort' : ctx.count('crashed_in_abort')
                if not world.server.start(): ctx.fail('the server does not start again')
            else: world.server.disarm(); world.server.ask('only', 0, '')
        world.wait_unlocked()
        r = world.wire(src = '127.250.0.9')
        candidates = [(who[0], msg, files, changes)] if end in ('commit', 'publish') and 'changes' in locals() and changes else []
        if adopt_head(ctx, r, hist, candidates, how):
            st.garbage |= st.pend - st.published; st.garbage |= st.unclear; st.pend = set(); st.unclear = set(); owner = None; ctx.count('published')
            uncleaned = not ended
            st.settle()
        elif ended and end in ('commit', 'publish'):
            # nothing to publish: whether its dropped uploads stay is not specified
            st.unclear |= st.pend; st.pend = set(); owner = None; st.settle()
        elif ended:
            cancelled += [st.sent[x] for x in st.pend - st.published]
            ctx.count('removed_contents', len(st.pend - st.published)); ctx.count('aborted')
            st.pend = set(); st.unclear = set(); owner = None
            st.gone('aborted')
        ctx.note(step, who, 'how', how, 'end', end, 'ended', ended, 'pend', len(st.pend), 'garbage', len(st.garbage))
        st.census('%s, %s' % (how, end))
        if rng.random() < 0.3: hist.verify(ctx, r, what = how)
        r.close()
        files = changes = msg = None
        del files, changes, msg
    # whatever is left goes as soon as somebody else commits
    w = world.wire(user = 'bob', src = '127.250.0.7')
    h, _ = w.begin(hist.head)
    ctx.check(h['status'] == 'ok', 'begin_commit on the head is refused', h)
    st.pend = set(); st.unclear = set(); st.census('at the end')
    w.abort()
    st.gone('at the end')
    hist.verify(ctx, w, what = 'at the end')
    ctx.sample({'contents' : len(st.sent), 'published' : len(st.published), 'revisions' : len(hist.revs)})
