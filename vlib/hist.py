""" Reference model of one repository: the list of published revisions, and the comparison with what the server says """
import json
from vlib.core import Violation
from vlib.wire import sha, WireError

class Rev:
    def __init__(self, id, parent, by, msg, files, changes):
        self.id = id; self.parent = parent; self.by = by; self.msg = msg
        self.files = files; self.changes = changes
        self.date = None; self.served = None

class Hist:
    def __init__(self):
        self.revs = []

    head = property(lambda s: s.revs[-1].id if s.revs else 'root')
    files = property(lambda s: s.revs[-1].files if s.revs else {})

    @staticmethod
    def outcome(files, ops):
        """ what a list of ('push', path, data) / ('delete', [paths]) makes of files: (new files, changes) """
        new = dict(files); changes = {}
        for op in ops:
            if op[0] == 'push':
                new[op[1]] = op[2]
                changes[op[1]] = 'changed' if op[1] in files else 'new'
            else:
                for p in op[1]:
                    new.pop(p, None); changes.pop(p, None)
                    if p in files: changes[p] = 'deleted'
        return new, changes

    def add(self, id, by, msg, ops = None, files = None, changes = None):
        if ops is not None: files, changes = self.outcome(self.files, ops)
        for r in self.revs:
            if r.id == id: raise Violation('revision identifier %s was used again' % id)
        self.revs.append(Rev(id, self.head, by, msg, files, changes))

    # ------------------------------------------------ comparison
    turn = 0
    def sampled(self):
        """ all revisions, of a long history the ends and a part that moves from call to call """
        n = len(self.revs)
        if n <= 40: return self.revs
        self.turn += 1
        return [r for i, r in enumerate(self.revs) if i < 5 or i >= n - 5 or (i + 4 * self.turn) % 9 == 0]

    def verify(self, ctx, w, revs = None, contents = True, what = ''):
        """ everything the server says about the history against the model; returns the number of reads made """
        reads = 0
        head = w.get_head(); reads += 1
        if head != self.head: raise Violation('%s: head is %s, expected %s' % (what, head, self.head))
        versions = w.list_versions(); reads += 1
        if versions is None: raise Violation('%s: the revision list is refused' % what)
        expect = [r.id for r in reversed(self.revs)]
        got = [v['id'] for v in versions]
        if got != expect[:len(got)] or (len(got) < len(expect) and len(got) < 50):
            raise Violation('%s: revision list is not the chain from the head' % what, (got, expect))
        by_id = {r.id : r for r in self.revs}
        for v in versions:
            r = by_id[v['id']]
            if v['commit_by'] != r.by: raise Violation('%s: author of %s is %r, expected %r' % (what, v['id'], v['commit_by'], r.by))
            if r.msg != '' and v['commit_message'] != r.msg:
                raise Violation('%s: message of %s is %r, expected %r' % (what, v['id'], v['commit_message'], r.msg))
            if r.date is None: r.date = (v['utc_date_time'], v['commit_message'])
            elif r.date != (v['utc_date_time'], v['commit_message']):
                raise Violation('%s: date or message of %s changed' % (what, v['id']), (r.date, v))
        if revs is None: revs = self.sampled()
        for r in revs:
            reads += self.verify_rev(w, r, contents, what)
        ctx.count('reads_checked', reads)
        return reads

    def verify_rev(self, w, r, contents = True, what = ''):
        files = w.list_files(r.id); changes = w.list_changes(r.id)
        reads = 2
        if files is None: raise Violation('%s: file list of %s is refused' % (what, r.id))
        if changes is None: raise Violation('%s: change list of %s is refused' % (what, r.id))
        if set(files) != set(r.files):
            raise Violation('%s: file list of %s differs' % (what, r.id), {'missing' : sorted(set(r.files) - set(files)), 'extra' : sorted(set(files) - set(r.files))})
        for p, info in files.items():
            if info['hash'] != sha(r.files[p]) or info['path'] != p:
                raise Violation('%s: %s lists %r with hash %s as %r, expected %s' % (what, r.id, p, info['hash'], info['path'], sha(r.files[p])))
        served = json.dumps([files, changes], sort_keys = True)
        if r.served is None: r.served = served
        elif r.served != served: raise Violation('%s: what is said about %s changed' % (what, r.id), (r.served, served))
        got = {c['path'] : c['status'] for c in changes}
        if len(got) != len(changes): raise Violation('%s: change list of %s names a path twice' % (what, r.id), changes)
        if got != r.changes: raise Violation('%s: change list of %s differs' % (what, r.id), {'got' : got, 'expected' : r.changes})
        if contents:
            for p, data in r.files.items():
                h, b = w.pull(p, r.id); reads += 1
                if b is None: raise Violation('%s: %r of %s can not be fetched: %s' % (what, p, r.id, h.get('msg')))
                if b != data: raise Violation('%s: %r of %s has different bytes (%d instead of %d)' % (what, p, r.id, len(b), len(data)))
                info = json.loads(h['file_info_json'])
                if info['hash'] != sha(data): raise Violation('%s: %r of %s is sent with hash %s' % (what, p, r.id, info['hash']))
        return reads

def do_ops(w, ops):
    """ sends the operations of a commit; the list of status values """
    out = []
    for op in ops:
        h = w.push(op[1], op[2]) if op[0] == 'push' else w.delete(op[1])
        out.append(h['status'])
    return out

def simple_commit(w, hist, user, ops, msg):
    """ a whole commit which has to succeed """
    h, partial = w.begin(hist.head)
    if h['status'] != 'ok': raise Violation('begin_commit on the current head was refused: ' + h.get('msg', ''))
    if partial: 
        w.delete([p['path'] for p in partial if p['path']])
    st = do_ops(w, ops)
    if set(st) - {'ok'}: raise Violation('an operation of a commit was refused', list(zip(ops, st)))
    h = w.commit(msg)
    if h['status'] != 'ok': raise Violation('commit was refused: ' + h.get('msg', ''))
    return h['head']

def client_commit(w, head, puts, deletes, msg, stop_before = None, always_begin = True):
    """ A commit the way the client does it, including picking up what an interrupted attempt left.
    puts: {path: data}, deletes: [path]. stop_before: number of requests after which it stops (returns None).
    Returns the headers of the last reply, of the commit if everything went through. """
    sent = [0]
    def step():
        sent[0] += 1
        return stop_before is not None and sent[0] > stop_before
    if step(): return None
    h, partial = w.begin(head)
    if h['status'] != 'ok': return h
    here = set(puts) | set(deletes)
    if any(p['status'] != 'new' and p['path'] not in here for p in partial):
        if step(): return None
        h = w.abort()
        if h['status'] != 'ok': return h
        if step(): return None
        h, partial = w.begin(head)
        if h['status'] != 'ok': return h
    have = {p['path'] for p in partial if p['path'] in puts and p['hash'] == sha(puts[p['path']])}
    gone = list(deletes) + [p['path'] for p in partial if p['path'] not in puts and p['path'] not in deletes]
    if gone:
        if step(): return None
        h = w.delete(gone)
        if h['status'] != 'ok': return h
    for p, d in puts.items():
        if p in have: continue
        if step(): return None
        h = w.push(p, d)
        if h['status'] != 'ok': return h
    if step(): return None
    return w.commit(msg)

def expected(files, puts, deletes):
    new = dict(files); changes = {}
    for p in deletes:
        if p in new: new.pop(p); changes[p] = 'deleted'
    for p, d in puts.items():
        new[p] = d; changes[p] = 'changed' if p in files else 'new'
    return new, changes

def adopt_head(ctx, w, hist, candidates, what):
    """ After an uncertain commit: the head has to be the old one, or a new revision whose content is one
    of the candidates [(by, msg, files, changes)]. Appends it to the model in that case. """
    head = w.get_head()
    if head == hist.head: return False
    versions = w.list_versions()
    if versions is None: raise Violation('%s: the history can not be listed after the head moved' % what)
    ids = [v['id'] for v in versions]
    if ids[0] != head or ids[1:] != [r.id for r in reversed(hist.revs)][:len(ids) - 1]:
        raise Violation('%s: the new head does not follow the old one' % what, (ids, hist.head))
    files = w.list_files(head); changes = w.list_changes(head)
    if files is None or changes is None: raise Violation('%s: the new head can not be read' % what)
    got = {p : i['hash'] for p, i in files.items()}
    gotc = {c['path'] : c['status'] for c in changes}
    for by, msg, f, c in candidates:
        if got == {p : sha(d) for p, d in f.items()} and gotc == c and versions[0]['commit_by'] == by:
            hist.add(head, by, msg, files = f, changes = c)
            return True
    raise Violation('%s: the head is neither the old revision nor a complete new one' % what,
                    {'got' : sorted(got), 'changes' : gotc, 'expected' : [(sorted(f), c) for _, _, f, c in candidates]})
