""" every kind of failure of single requests of real updates and commits; afterwards the records, files and reported status of the working copy are compared with what the server has, and the repeated command with an undisturbed one """
import errno
from vlib import gen, diverge
from vlib.core import ERR, ERR_FROM
from vlib.cw import Team, parse_conflicts
from vlib.wire import sha

LEVEL = 'fault_enumeration'
RULE = ('a case is a walk of generated commits, edits, updates, commits and list commands in which requests (chosen by number or by action) are refused, answered by nothing before or after the server acted, answered in part, refused after the server acted, or meet an expired session; or an operation on the disk of the client fails. After every failed command, the records of the client are compared with the '
        'revisions on the server and its files with both states the command goes between; the command is then repeated, possibly after edits and after commits by others, until it completes, and the outcome is compared with the model of undisturbed commands. An evaluation is one failing command; distinct by command, request, kind of failure, and outcome')
ASSUMPTIONS = ['no local untracked file stands where an update has to create a directory, or the other way round', 'after a commit of which only the reply is lost, the user updates first']
REQUIRED = ['fail', 'drop', 'drop_after', 'fail_after', 'expire', 'cut', 'failed_updates', 'failed_commits', 'partial_updates', 'repeated_updates', 'repeated_commits', 'accepted_reply_lost', 'edits_between', 'head_moved_between', 'status_compared', 'fresh_copies', 'with_conflicts', 'every_request_update', 'every_request_commit', 'failed_lists', 'disk', 'disk_commit']
QUICK_WALL = 22
THOROUGH_WALL = 700

def plan(tier): return 130 if tier == 'quick' else 3000

ACTIONS = {'update' : ['find_changed', 'pull_file', 'pull_file', 'pull_file', 'request_authentication', 'authenticate'],
           'commit' : ['begin_commit', 'push_file', 'push_file', 'delete_files', 'commit', 'commit', 'request_authentication', 'authenticate']}

class Walk:
    def __init__(self, ctx):
        self.ctx = ctx; self.rng = ctx.rng
        self.team = Team(ctx, pool = gen.paths(ctx.rng, ctx.rng.choice([4, 6, 9])))
        self.a, self.b = self.team.copies
        self.clock = 0; self.was = 0

    def rule(self, command, n = None):
        """ arms one failure -> its name """
        rng = self.rng; server = self.team.world.server
        self.fault = {}
        if rng.random() < 0.15: # not a request but something on the own disk
            self.fault = {'arm' : (rng.randrange(rng.choice([8, 25, 80])), rng.choice([ERR, ERR, ERR_FROM]), rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])), 'watch' : [self.b.wc.path]}
            server.rules([])
            return 'disk'
        do = rng.choice(['fail', 'fail', 'drop', 'drop', 'drop_after', 'drop_after', 'fail_after', 'expire', 'cut'])
        if n is not None: where = {'n' : n}
        elif rng.random() < 0.5: where = {'n' : rng.randrange(10)}
        else: where = {'action' : rng.choice(ACTIONS[command]), 'nth' : rng.choice([0, 0, 0, 1, 2, 3])}
        rule = dict(where, do = do, msg = rng.choice(['no', 'Lock file exists', 'ok', '', 'Session token invalid']))
        if do == 'cut': rule['bytes'] = rng.choice([0, 1, 10, 40, 100, 200, 300])
        if do == 'expire':
            rule['do'] = 'call'
            def on_event(msg):
                self.clock += 7300
                server.clock(self.clock)
            server.on_event = on_event
        rules = [rule]
        if rng.random() < 0.15 and n is None: # the failure lasts
            rules += [dict(rule, n = i, action = None, nth = None) for i in range(where.get('n', 3) + 1, 40)]
        server.rules(rules)
        return do

    def fired(self, r):
        server = self.team.world.server
        seen = server.seen()
        if self.fault:
            self.fault = {}
            if r.extra['fired'] and not r.ok: # what could not be undone at once is undone by the next command
                x = self.team.world.cli(self.b.wc, 'status')
                self.ctx.check(x.ok, 'after an error of the disk status fails: %r' % x, x.extra.get('tb'))
            return (r.extra['count'], 'disk') if r.extra['fired'] and not r.ok else None
        server.rules([]); server.on_event = None
        if self.clock != self.was: self.team.drop_reader(); self.was = self.clock # its session expired as well
        for i, (action, _, do) in enumerate(seen):
            if do: return i, action
        return None

    # ------------------------------------------------ update
    def update(self, c, choice, n = None):
        """ one update under a failure. -> True if it completed """
        ctx = self.ctx; team = self.team
        p = c.plan()
        for x in p.conflicts: # left to the user
            if x not in c.local and not gen.compatible(x, c.local): return None
        for x in p.pull:
            if x not in c.local and not gen.compatible(x, set(c.local) - set(p.delete)): return None
        old_local = dict(c.local); old_man = dict(c.manifest); base = c.base; status = c.status(); dirty = set(c.dirty)
        do = self.rule('update', None if n is None else n % (4 + len(p.pull) + len(p.conflicts)))
        r = team.world.cli(c.wc, 'update', answers = [choice] * 3, **self.fault)
        hit = self.fired(r)
        ctx.note('update', do, hit, r, 'conflicts', p.conflicts)
        ctx.check(r.kind == 'done', 'an update of which a request fails (%s) hangs or dies: %r' % (do, r))
        if hit: ctx.count(do)
        if p.conflicts: ctx.count('with_conflicts')
        what = 'update, request %s: %s' % (hit, do)
        if not hit: ctx.check(r.ok, 'an update fails: %r' % r, r.extra.get('tb'))
        c.apply(p, choice)
        if r.ok:
            c.check(what + ', ended well')
            ctx.evaluated(('update', hit, do, 'ok'))
            return True
        new_local = c.local; new_man = c.manifest
        # what is there has to be known, file by file
        tree = c.wc.tree(); rev, man = c.wc.meta() or ('root', {})
        ctx.check(rev == (team.hist.revs[base].id if base >= 0 else 'root'), what + ': the update failed and a revision is recorded as complete', (rev, r))
        done = 0
        c.local = dict(old_local); c.manifest = dict(old_man); c.base = base; c.dirty = set(dirty)
        for f in set(tree) | set(old_local) | set(new_local) | set(man) | set(old_man) | set(new_man):
            have = (tree.get(f), man.get(f))
            if have == (old_local.get(f), old_man.get(f)): continue
            # with these, the client's record can be made up front, while its file remains
            ctx.check(have == (new_local.get(f), new_man.get(f)), what + ': a file or what is recorded of it is neither as before nor as after the update',
                      (f, [None if x is None else (len(x), sha(x)[:8]) for x in (old_local.get(f), tree.get(f), new_local.get(f))], (old_man.get(f), man.get(f), new_man.get(f))))
            done += 1
            if have[0] is None: c.local.pop(f, None)
            else: c.local[f] = have[0]
            if have[1] is None: c.manifest.pop(f, None)
            else: c.manifest[f] = have[1]
            if have[0] != old_local.get(f) or f in p.pull or p.conflicts.get(f, ('', ''))[1] == 'Changed' and choice == 'server': c.dirty.discard(f)
        if done: ctx.count('partial_updates')
        c.dirty &= set(c.local)
        # of files which look the same before and after, it can not be seen whether they were pulled
        same = [f for f in p.conflicts if (old_local.get(f), old_man.get(f)) == (new_local.get(f), new_man.get(f)) and f in c.dirty]
        if same and choice == 'server':
            shown = c.parse_status(team.world.cli(c.wc, 'status').out)
            for f in same:
                if f not in shown: c.dirty.discard(f)
        c.check_status(what)
        ctx.count('failed_updates')
        ctx.evaluated(('update', hit, do, min(done, 3), bool(p.conflicts), bool(status)))
        return False

    # ------------------------------------------------ commit
    def commit(self, c, n = None):
        ctx = self.ctx; team = self.team
        status = c.status()
        if not status or c.base != len(team.hist.revs) - 1: return None
        files, changes = team.expected_commit(c, status)
        do = self.rule('commit', None if n is None else n % (5 + len(status)))
        r = team.world.cli(c.wc, 'commit', '-m', 'msg', **self.fault)
        hit = self.fired(r)
        ctx.note('commit', do, hit, r, status)
        ctx.check(r.kind == 'done', 'a commit of which a request fails (%s) hangs or dies: %r' % (do, r))
        team.world.wait_unlocked()
        if hit: ctx.count(do)
        if hit and do == 'disk': ctx.count('disk_commit')
        what = 'commit, request %s: %s' % (hit, do)
        head = team.reader.get_head()
        said = not r.ok or 'Something went wrong' in r.out
        if not said:
            team.committed(c, 'msg', status)
            team.hist.verify(ctx, team.reader, revs = team.hist.revs[-1:], what = what + ', ended well')
            c.check(what + ', ended well')
            ctx.evaluated(('commit', hit, do, 'ok'))
            return True
        ctx.check(hit is not None, 'a commit fails: %r' % r, r.extra.get('tb') or r.out[-500:])
        c.check(what + ', reported as failure')
        c.check_status(what)
        ctx.count('failed_commits')
        if head != team.hist.head:
            ctx.check(do in ('cut', 'disk') or hit[1] == 'commit' and do in ('drop_after', 'fail_after'), what + ': a commit that failed before it was published created a revision')
            team.hist.add(head, c.user, 'msg', files = files, changes = changes)
            team.hist.verify(ctx, team.reader, revs = team.hist.revs[-1:], what = what + ', published nevertheless')
            ctx.count('accepted_reply_lost')
        elif changes: ctx.check(not (hit[1] == 'commit' and do in ('drop_after', 'fail_after')), what + ': the server acted on the commit and there is no revision')
        else: c.check(what)
        ctx.evaluated(('commit', hit, do, head != team.hist.head))
        return False

    def lists(self, c):
        """ what the list commands say when their request fails: nothing, or the truth """
        ctx = self.ctx; rng = self.rng; hist = self.team.hist; server = self.team.world.server
        if c.base < 0: return
        rev = hist.revs[c.base]
        for what in rng.sample(['list-versions', 'list-files', 'list-changes'], 2):
            do = rng.choice(['fail', 'fail', 'drop', 'drop_after', 'fail_after', 'cut'])
            rule = {'action' : what.replace('-', '_'), 'nth' : 0, 'do' : do, 'msg' : rng.choice(['no', 'Lock file exists', '', 'Session token invalid'])}
            if do == 'cut': rule['bytes'] = rng.choice([0, 1, 40, 100, 200, 300])
            if rng.random() < 0.2: rule.update(action = 'authenticate')
            args = ['-h'] if what != 'list-versions' and rng.random() < 0.3 else []
            server.rules([rule])
            r = self.team.world.cli(c.wc, what, *args)
            hit = self.fired(r)
            of = hist.revs[-1] if args else rev
            ctx.note(what, do, hit, r)
            ctx.check(r.kind == 'done', '%s of which a request fails (%s) hangs or dies: %r' % (what, do, r))
            c.check('a failing ' + what); ctx.count('failed_lists')
            ctx.evaluated((what, do, bool(hit), r.ok))
            lines = r.out.split('\n')
            if not hit or r.ok: # taken for the answer
                if what == 'list-versions': good = [l[len('Commit:  '):] for l in lines if l.startswith('Commit:  ') and len(l) == 73] == [x.id for x in reversed(hist.revs)][:52]
                elif what == 'list-files': good = sorted(l for l in lines if l.startswith('/')) == sorted(of.files)
                else: good = c.parse_status(r.out) == of.changes
                ctx.check(r.ok and good, '%s, request %s: %s: ends well without showing what there is' % (what, hit, do), (r, r.out[-500:]))
            else: ctx.check('There are no commits' not in lines, '%s, request %s: %s: the history is said to be empty' % (what, hit, do), r.out[-500:])

    def others(self):
        """ somebody else commits something """
        team = self.team; a = self.a
        team.update(a, 'server')
        diverge.server_side(self.ctx, team, a, density = self.rng.choice([0.2, 0.5]), commits = 1)

    def final_update(self, c, choice):
        p = c.plan()
        for x in list(p.conflicts) + list(p.pull):
            if x not in c.local and not gen.compatible(x, set(c.local) - set(p.delete)): return False
        self.team.update(c, choice)
        return True

    def until_updated(self, c, fixed = None):
        ctx = self.ctx; rng = self.rng
        choice = rng.choice(['server', 'client'])
        start = None
        for k in range(rng.choice([1, 1, 2, 3])):
            r = self.update(c, choice, fixed)
            if r is None: return False
            if r: return True
            if rng.random() < 0.3: c.edit(rng, self.team.pool, rng.choice([1, 2])); ctx.count('edits_between')
            if rng.random() < 0.25: self.others(); ctx.count('head_moved_between')
        if not self.final_update(c, rng.choice(['server', 'client'])): return False
        ctx.count('repeated_updates')
        return True

    def until_committed(self, c, fixed = None):
        ctx = self.ctx; rng = self.rng; team = self.team
        for k in range(rng.choice([1, 1, 2, 3])):
            r = self.commit(c, fixed)
            if r is None or r: break
            ctx.count('repeated_commits')
            if rng.random() < 0.3: c.edit(rng, team.pool, rng.choice([1, 2])); ctx.count('edits_between')
            if rng.random() < 0.2: self.others(); ctx.count('head_moved_between')
            if c.base != len(team.hist.revs) - 1:
                if not self.final_update(c, rng.choice(['server', 'client'])): return False
        team.commit(c, 'repeated')
        return True

def case(ctx):
    rng = ctx.rng
    w = Walk(ctx); team = w.team; a, b = w.a, w.b
    if rng.random() < 0.8: diverge.base(ctx, team)
    else:
        team.commit_first = True
        a.write(team.pool[0], gen.content(rng)); team.commit(a, 'first')
        ctx.count('fresh_copies')
    for k in range(3 if ctx.quick else 8):
        # a fixed request number in most rounds, so that all of them are met
        fixed = (ctx.index * 3 + k) % 14 if rng.random() < 0.6 else None
        diverge.server_side(ctx, team, a, density = rng.choice([0.3, 0.7, 1]), commits = rng.choice([1, 2]))
        if rng.random() < 0.6: diverge.client_side(ctx, team, b, rng.choice([0.3, 0.7]))
        if not w.until_updated(b, fixed): ctx.count('left_out'); return
        ctx.count('every_request_update')
        if rng.random() < 0.8:
            diverge.client_side(ctx, team, b, rng.choice([0.3, 0.7]))
        if not w.until_committed(b, fixed): ctx.count('left_out'); return
        ctx.count('every_request_commit')
        if rng.random() < 0.5: w.lists(b)
        team.update(a, 'server')
        if not b.status() and not a.status() and b.base == a.base:
            ctx.check({p : d for p, d in a.local.items()} == {p : d for p, d in b.local.items()}, 'the working copies differ after everything was repeated')
    ctx.sample({'revisions' : len(team.hist.revs), 'pool' : team.pool[:5]})
