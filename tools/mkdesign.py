""" Writes the generated part of DESIGN.md (per property: oracle, what is run, bounds, assumptions, planted changes) from properties.jsonl, the checks, known_findings.txt and seeded/. """
import ast, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/mkdesign.py from here on -->'

# why watching executions reaches what the tests cannot, and what it costs or leaves out
NOTES = {
'C01' : 'Crash points are the counted file-system operations of the operation (own log first, sqlite after it), each before and half way through; listings half written get a retry by the same client. Not exhaustive per quick run (40 points of some 300 per operation, 600 in thorough).',
'C02' : 'The memory of everything ever served is the oracle, so any later event that alters a revision shows, whatever caused it.',
'C03' : 'The reference model is a dict per revision; look-alike names, shared contents and directories with equal listings are generated on purpose.',
'C04' : 'The cut is placed at requests, bytes and file-system operations, on either side; the edits in between are what the tests lack.',
'C05' : 'Schedules come from delays at the server\'s file-system calls and from stopping real clients at each request; the checker is offline over call/return sequence numbers.',
'C06' : 'Besides races, single read requests are stopped at one of their own accesses to the store while revisions are published, and real updates at their requests.',
'C07' : 'All pairs of revisions of each history are compared, not only neighbours.',
'C08' : 'Census by content hash, and by comparison with the last settled state, so it does not matter in which directory or format something is left over.',
'C09' : 'Damage is applied to every kind of object; healthy states include pending, aborted and running commits and verify stopped at its own accesses.',
'C10' : 'Reachability is computed by an own walk over the stored format; gc is also killed and refused system calls.',
'C11' : 'Every grant must be explained by exactly one recorded challenge. Time is moved at the C library of the server.',
'C12' : 'The operations come from the server\'s own table of routes, so an added one is judged as well.',
'C13' : 'The jail in the shim records and refuses writes outside the allowed directories, so nothing real can be reached. Decoys make illegal reads visible in replies.',
'C14' : 'The real transport classes talk over socket pairs and real connections whose sends and receives are shortened or cut at every byte position of small messages.',
'C15' : 'Convergence is checked at the end of random walks; every command in between is compared with the model, too.',
'C16' : 'Enumerates the product of what happened locally and on the server per path, including re-creation, and judges both directions (missed and spurious conflicts).',
'C17' : 'Resolution files are generated valid, incomplete, excessive, outdated and damaged.',
'C18' : 'Every file-system operation of an update is a crash point; recovery may crash as well.',
'C19' : 'The component is driven alone, which makes complete enumeration of its crash points affordable.',
'C20' : 'Edits are placed between any two requests, and at file accesses, of running commands.',
'C21' : 'The observation is what the server was sent, not what the client says.',
'C22' : 'Model of the three records involved: disk, manifest, history.',
'C23' : 'A refused checkout is compared with the complete state before it.',
'C24' : 'The first command is really stopped inside (request, question, file operation) while others are started.',
'C25' : 'A key counts by what it can sign, the secrets are searched for in many encodings.',
'C26' : 'A restored repository is judged by a real server over it, not by comparing files.',
'C27' : 'Every call to the remote store is searched; tampering covers each kind of object and position.',
'C28' : 'Single requests fail in every way a server or a network can fail; truthfulness of the records is judged before the repetition.',
'C29' : 'A model of who holds what follows the sequence; silence is judged with the waiting times of the server divided by 200.',
'C31' : 'Contents begin with marks that are nowhere else and cannot be compressed, so a copy is found by its mark, and one in another form by its weight.',
'C32' : 'The peak the kernel keeps for each process is compared with its state at the start; the stand-in for the remote store keeps nothing in memory. Observed peaks are below 6 MB, the limit is 24 MB, a file held as a whole adds 48 MB or more.',
'C33' : 'The version numbers are set before client and server processes are started, the code is not touched.',
'C34' : 'The model of the history is carried along, so the moved repository is judged like any other.',
'C35' : 'The snapshots compare everything on disk, so a change needs no command of its own to be noticed; pending commits are judged by resuming them.',
'C37' : 'Three models of history, one per repository; whatever a step may not concern is compared byte for byte (objects, head, database) before and after it, and read completely by way of one connection that goes around. Interrupted commits are resumed by their user, half of the time published from what gc has left of them.',
'C36' : 'The requests are recorded in the server process; what had to be transferred comes from the model of working copies and history, not from the client.',
'C30' : 'The earlier format is written by the harness as its client did, including interrupted states.',
}

def const(src, name):
    m = next(n for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name)
    return ast.literal_eval(m.value)

def main():
    seeded = {}
    root = os.path.join(here, 'seeded')
    for b in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, b, 'meta.json'))); seeded.setdefault(m['property'], []).append((b, m))
    caught = {}
    p = os.path.join(here, 'tools', 'caught.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) > 2 and w[2] == 'rc=1': caught.setdefault(w[0], set()).add(w[1])
    fixed = {}
    for line in open(os.path.join(here, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', line)
        if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
    out = [MARK, '', '## Per property', '']
    for line in open(os.path.join(here, 'properties.jsonl')):
        d = json.loads(line); i = d['id']
        src = open(os.path.join(here, 'checks', i.lower() + '.py')).read()
        oracle = ' '.join(ast.get_docstring(ast.parse(src)).split())
        out += ['### %s %s' % (i, d['title']), '', '*Oracle:* ' + oracle + '. *What is run:* ' + ' '.join(const(src, 'RULE').split()) + '.', '',
                '*Reach:* ' + NOTES[i], '',
                '*Assumptions:* ' + '; '.join(const(src, 'ASSUMPTIONS')) + '. *Level:* ' + const(src, 'LEVEL') + ', quick at most %d s of cases, thorough at most %d s on 8 cores. ' % (const(src, 'QUICK_WALL'), const(src, 'THOROUGH_WALL'))
                + '*Inconclusive unless observed:* ' + ', '.join(const(src, 'REQUIRED')) + '.', '']
        if i in seeded: out += ['*Planted changes:* ' + '; '.join('`%s` (%s)%s' % (b, m['needs'], '' if b not in caught or i in caught[b] else ' **missed**') for b, m in seeded[i]) + '.', '']
        if i in fixed: out += ['*Defects found and repaired:* ' + '; '.join('%s (%s)' % (t, h) for h, t in fixed[i]) + '.', '']
    out += ['## Planted changes and what catches them', '', '| change | property | caught by |', '|---|---|---|']
    for i in sorted(seeded):
        for b, _ in seeded[i]: out.append('| %s | %s | %s |' % (b, i, ', '.join(sorted(caught.get(b, []))) or 'not run'))
    f = os.path.join(here, 'DESIGN.md')
    s = open(f).read().split(MARK)[0]
    open(f, 'w').write(s + '\n'.join(out) + '\n')

main()
