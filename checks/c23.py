""" the directory a real checkout leaves, compared with the head revision and with what further commands do in it; every refused checkout compared with what was there """
import os, base64, json, errno, shutil
import pysodium
from vlib import gen
from vlib.core import KILL, HALF_KILL, ERR, ERR_FROM
from vlib.cw import Team, Copy
from vlib.world import run_cli, WC, b64
from vlib.wire import sha

LEVEL = 'exploration'
RULE = ('a case generates a repository (empty, with files that were all deleted, or with a generated history), a user name and a key (made by the real keygen, with or without password), checks it out and compares the directory, the records and the reported status with the head revision, edits, commits and updates there; others are interrupted (killed at a file operation, disk errors) and then finished by an update or repeated; '
        'checkouts with something wrong (credentials, URL, repository, directory) have to leave the file system as it was. An evaluation is one checkout; distinct by what was wrong or by kind of repository, name, key and number of files')
ASSUMPTIONS = ['names of repositories contain no character with a meaning in a URL', 'the key is entered as keygen printed it']
REQUIRED = ['checked_out', 'empty', 'emptied', 'with_files', 'with_password', 'without_password', 'worked_in', 'refused', 'refused_credentials', 'refused_directory', 'refused_repository', 'refused_url', 'failed_transfer', 'completed_later', 'odd_names', 'key_not_in_clear', 'interrupted']
QUICK_WALL = 20
THOROUGH_WALL = 600

def plan(tier): return 110 if tier == 'quick' else 2000

REPOS = ['repo', 'my repo', 'ünï', 'a.b', 'x_1', '...', '100%', '日本語', 'UPPER', '.hidden', 'it\'s', 'q&a=1', 'a+b', '-dash', '~']
USERS = ['ann', 'Ann Other', 'ünï', '日本語', 'a@b.c', '1', 'x' * 100, 'it\'s', 'semi;colon', '"q"', '-']
PASSWORDS = ['secret', 'pass word', 'pässwörd', '日本語', 'x' * 300, ' lead', '1', 'trail ', '\U0001F600']

def keygen(ctx, password):
    d = os.path.join(ctx.dir, 'keygen'); os.makedirs(d, exist_ok = True)
    if password is None: r = run_cli(d, 'keygen', answers = ['n'])
    else: r = run_cli(d, 'keygen', answers = ['y'], passwords = [password, password])
    ctx.check(r.ok, 'keygen fails: %r' % r, r.extra.get('tb'))
    l = r.out.split('\n')
    ctx.check(not os.listdir(d), 'keygen writes files')
    return l[l.index('Private key:') + 1], l[l.index('Public key: ') + 1]

def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs: out[os.path.join(base, x)] = None
        for x in files:
            full = os.path.join(base, x)
            with open(full, 'rb') as f: out[full] = (f.read(), os.stat(full).st_mtime_ns)
    return out

def case(ctx):
    rng = ctx.rng
    repo = rng.choice(REPOS); user = rng.choice(USERS)
    other = rng.choice([r for r in REPOS if r != repo])
    password = rng.choice(PASSWORDS) if rng.random() < 0.4 else None
    private, public = keygen(ctx, password)
    if user != 'ann' or repo != 'repo': ctx.count('odd_names')
    def extra(config):
        config['users'][user] = {'public_key' : public, 'uses_repositories' : [repo]}
        config['users']['norights'] = {'public_key' : public, 'uses_repositories' : [other]}
    team = Team(ctx, [('w0', 'bob')], repos = (repo, other), users = ('bob', 'zoe'), extra_config = extra)
    c0 = team.copies[0]
    what = rng.choice(['empty', 'emptied', 'files', 'files', 'files'])
    if what != 'empty':
        for i in range(rng.choice([1, 2, 4])):
            c0.edit(rng, team.pool, rng.choice([2, 5]), kinds = ('write', 'write', 'modify', 'remove'))
            if not c0.local: c0.write(team.pool[0], gen.content(rng))
            team.commit(c0, 'r%d' % i)
        if what == 'emptied':
            for p in list(c0.local): c0.remove(p)
            team.commit(c0, 'emptied')
    cwd = os.path.join(ctx.dir, 'co'); os.makedirs(cwd)
    for p in rng.sample(['/near', '/' + repo + 'x/file', '/' + repo[:-1] + '_/y'], 2):
        os.makedirs(os.path.dirname(cwd + p), exist_ok = True)
        with open(cwd + p, 'w') as f: f.write('mine')
    url = 'http://%s:%d/%s' % (*team.world.server.addr, repo)

    for _ in range(rng.choice([2, 3]) if ctx.quick else 6):
        refused(ctx, team, cwd, url, repo, other, user, private, password)
    # -------------------------------- the good one
    fault = rng.random() < 0.25 and team.hist.files
    before = snapshot(cwd)
    if fault:
        how = rng.choice(['fail', 'drop', 'drop_after', 'cut']); where = rng.choice([0, 50, 300])
        team.world.server.rules([{'action' : 'pull_file', 'nth' : rng.randrange(len(team.hist.files)), 'do' : how, 'bytes' : where}])
        if how != 'cut': where = 0
    def go(**kw): return team.world.cli(cwd, 'checkout', url + rng.choice(['', '', '/', '//']), answers = [rng.choice(['', ' ']) + user + rng.choice(['', ' ']), private], passwords = [password] if password is not None else [], **kw)
    if not fault and rng.random() < 0.35: return interrupted(ctx, team, cwd, repo, user, password, what, go, before)
    r = go()
    ctx.note('checkout', repr(repo), repr(user), what, r)
    after = snapshot(cwd)
    ctx.check({p : v for p, v in after.items() if not (p + '/').startswith(cwd + '/' + repo + '/')} == before, 'a checkout changes something besides its directory')
    if fault:
        hit = any(x[2] for x in team.world.server.seen()); team.world.server.rules([])
        if hit:
            ctx.check(r.kind == 'done', 'a checkout with a failing request hangs')
            # (a reply which is shorter than where it was to be cut off arrives whole: what is there is compared below)
            ctx.check(not r.ok or where >= 100, 'a checkout which could not get all files ends well')
            if not r.ok: ctx.count('failed_transfer')
            else: fault = False
    else: ctx.check(r.ok, 'a checkout fails: %r' % r, r.extra.get('tb') or r.out[-300:])
    path = cwd + '/' + repo
    ctx.check(os.path.isdir(path), 'there is no directory named like the repository')
    ctx.check('Password' not in r.out, 'the password is echoed')
    c = copy_at(ctx, team, path, user, password)
    if fault and not r.ok: # what is missing comes with an update
        tree = c.wc.tree()
        for p, d in tree.items(): ctx.check(team.hist.files.get(p) == d, 'an incomplete checkout leaves a file that is not from the revision', p)
        r = team.world.cli(c.wc, 'update'); ctx.check(r.ok, 'an update of an incomplete checkout fails: %r' % r, r.extra.get('tb'))
        ctx.count('completed_later')
    c.local = dict(team.hist.files); c.manifest = {p : sha(d) for p, d in c.local.items()}; c.base = len(team.hist.revs) - 1
    c.check('checkout'); c.check_status('checkout')
    ctx.count('checked_out'); ctx.count(what if what != 'files' else 'with_files'); ctx.count('without_password' if password is None else 'with_password')
    cfg = c.wc.config()
    ctx.check(cfg['user'] == user and cfg['repository'] == repo, 'another user or repository is recorded', cfg)
    if password is not None: secret_absent(ctx, path, private, password, ' '.join([user, repo, path] + team.pool + [p for x in team.hist.revs for p in x.files]))
    # -------------------------------- work in it
    c.edit(rng, team.pool, 3, kinds = ('write', 'modify'))
    if not c.status(): c.write(next(p for p in ['/first', '/second'] if gen.compatible(p, c.local)), gen.unique(rng))
    ctx.check(team.commit(c, 'from the checkout'), 'nothing was committed')
    team.update(c0)
    if not c0.local: c0.write('/zz', b'1')
    c0.edit(rng, sorted(c0.local), 2, kinds = ('write', 'modify', 'touch')); team.commit(c0)
    team.update(c); c.check_status('in the end')
    if password is not None: secret_absent(ctx, path, private, password, ' '.join([user, repo, path] + team.pool + [p for x in team.hist.revs for p in x.files]))
    ctx.count('worked_in')
    ctx.evaluated(('good', what, repo, len(team.hist.revs[0].files) if team.hist.revs else 0, password is None, bool(fault)))
    ctx.sample({'repository' : repo, 'user' : user, 'files' : len(c.local)})

def copy_at(ctx, team, path, user, password):
    c = Copy.__new__(Copy)
    c.team = team; c.name = 'co'; c.user = user; c.ctx = ctx; c.wc = WC(path, team.world.times)
    c.local = {}; c.manifest = {}; c.dirty = set(); c.base = -1; c.pull_filters = []
    real = team.world.cli
    def cli(wc, *args, **kw):
        if wc is c.wc and password is not None: kw['passwords'] = [password]
        return real(wc, *args, **kw)
    team.world.cli = cli
    return c

def interrupted(ctx, team, cwd, repo, user, password, what, go, before):
    """ the client dies in the middle of it, or its disk fails """
    rng = ctx.rng; path = cwd + '/' + repo
    action = rng.choice([KILL, HALF_KILL, ERR, ERR, ERR_FROM])
    r = go(arm = (rng.randrange(rng.choice([10, 40, 40, 150])), action, rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES]) if action in (ERR, ERR_FROM) else 0), watch = [cwd])
    hit = r.kind == 'killed' or r.extra['fired']
    ctx.note('checkout', repr(repo), what, 'interrupted', r)
    ctx.check(r.kind == 'done' or hit, 'a checkout hangs: %r' % r)
    if hit: ctx.count('interrupted')
    else: ctx.check(r.ok, 'a checkout fails: %r' % r, r.extra.get('tb') or r.out[-300:])
    ctx.check({p : v for p, v in snapshot(cwd).items() if not (p + '/').startswith(path + '/')} == {p : v for p, v in before.items() if p != path}, 'a checkout changes something besides its directory')
    done = r.kind == 'done' and r.ok
    usable = done
    if not done:
        try:
            with open(path + '/.bvn/client_configuration.json') as f: json.load(f)
            usable = True
        except (OSError, ValueError): # it came to nothing, the user removes it
            for p in os.walk(path): ctx.check(p[0] in (path, path + '/.bvn') and set(p[2]) <= {'client_configuration.json'}, 'a checkout which came to nothing has files', p)
            shutil.rmtree(path, ignore_errors = True)
            r = go(); ctx.check(r.ok, 'the checkout can not be repeated: %r' % r, r.extra.get('tb') or r.out[-300:])
    c = copy_at(ctx, team, path, user, password)
    if usable and not done:
        r = team.world.cli(c.wc, 'update'); ctx.check(r.ok, 'an update of an incomplete checkout fails: %r' % r, r.extra.get('tb') or r.out[-400:])
        ctx.count('completed_later')
    c.local = dict(team.hist.files); c.manifest = {p : sha(d) for p, d in c.local.items()}; c.base = len(team.hist.revs) - 1
    c.check('interrupted checkout'); c.check_status('interrupted checkout')
    c.edit(rng, team.pool + ['/first'], 3, kinds = ('write', 'modify', 'touch'))
    team.commit(c, 'from the checkout')
    ctx.evaluated(('interrupted', action, done, usable, len(team.hist.files) > 3))

def secret_absent(ctx, path, private, password, known):
    """ neither the key nor the password is stored in clear """
    raw = base64.b64decode(private)
    ns = pysodium.crypto_pwhash_SALTBYTES; nn = pysodium.crypto_box_NONCEBYTES
    k = pysodium.crypto_pwhash(pysodium.crypto_secretbox_KEYBYTES, password, raw[1:1 + ns], pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE, pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, pysodium.crypto_pwhash_ALG_ARGON2I13)
    secret = pysodium.crypto_secretbox_open(raw[1 + ns + nn:], raw[1 + ns:1 + ns + nn], k)
    forms = [secret, secret[:32], base64.b64encode(secret), base64.b64encode(b'n' + secret), base64.b64encode(secret[:32])[:40], secret.hex().encode(), secret[:32].hex().encode()]
    if len(password) > 5 and password not in known: forms.append(password.encode())
    for p, v in snapshot(path + '/.bvn').items():
        if v is None: continue
        for f in forms: ctx.check(f not in v[0], 'the secret key or the password is stored in clear', (p, f, forms.index(f)))
    ctx.count('key_not_in_clear')

def refused(ctx, team, cwd, url, repo, other, user, private, password):
    """ a checkout that can not be """
    rng = ctx.rng
    pw = [password] * 2 if password is not None else []
    answers = [user, private]
    k = rng.choice(['key', 'key', 'user', 'rights', 'repo', 'dir', 'dir', 'file', 'url', 'url', 'blank', 'blankkey', 'garbage', 'short', 'password', 'port', 'norepo', 'auth'])
    u = url; clean = None; kind = 'credentials'; rules = []
    if k == 'key':
        sk = bytearray(pysodium.crypto_sign_keypair()[1])
        if rng.random() < 0.5:
            raw = bytearray(base64.b64decode(private)); raw[rng.randrange(1, len(raw))] ^= 1 << rng.randrange(8)
            answers[1] = b64(bytes(raw))
            if password is None: answers[1] = b64(bytes(raw[:1]) + bytes([base64.b64decode(private)[1] ^ 1]) + bytes(raw[2:])) # the part that signs
            pw = [password] if password is not None else []
        else: answers[1] = b64(b'n' + bytes(sk)); pw = []
    elif k == 'user': answers[0] = rng.choice(['bob', 'zoe', user + 'x', 'nobody', user.upper() + '_'])
    elif k == 'rights': answers[0] = 'norights'
    elif k == 'repo': u = url.rsplit('/', 1)[0] + '/' + other; kind = 'repository' # it exists, but not for this user
    elif k == 'norepo': u = url.rsplit('/', 1)[0] + '/' + rng.choice(['unknown', repo + 'x', 'x' * 50]); kind = 'repository'
    elif k == 'dir':
        os.makedirs(cwd + '/' + repo); clean = cwd + '/' + repo; kind = 'directory'
        for p in rng.choice([[], ['/a'], ['/sub/b', '/.bvn/client_configuration.json']]):
            os.makedirs(os.path.dirname(clean + p), exist_ok = True)
            with open(clean + p, 'w') as f: f.write('mine')
    elif k == 'file':
        clean = cwd + '/' + repo; kind = 'directory'
        with open(clean, 'w') as f: f.write('mine')
    elif k == 'url':
        kind = 'url'
        h = url.rsplit('/', 1)[0]
        u = rng.choice([h, h + '/', h + '//', url + '/more', url[len('http://'):], 'ftp' + url[4:], '/' + repo, repo, '', 'http:///' + repo, 'http:/' + repo])
    elif k == 'blank': answers[0] = rng.choice(['', ' ', '\t'])
    elif k == 'blankkey': answers[1] = rng.choice(['', ' '])
    elif k == 'garbage': answers[1] = rng.choice(['not base64!', 'A', 'bg==', private[:-5] + '*', 'eQ==', private[:10]])
    elif k == 'short': answers[1] = b64(base64.b64decode(private)[:rng.choice([2, 10, 33, 50])])
    elif k == 'password':
        if password is None: return
        pw = [rng.choice([password + 'x', password[:-1] if len(password) > 1 else 'q', password.swapcase() if password.swapcase() != password else password + ' ', '', 'other'])]
    elif k == 'port': u = 'http://127.0.0.1:1/' + repo; kind = 'url'
    elif k == 'auth': rules = [{'action' : rng.choice(['begin_auth', 'authenticate']), 'do' : rng.choice(['fail', 'drop', 'drop_after'])}]
    before = snapshot(cwd)
    if rules: team.world.server.rules(rules)
    r = team.world.cli(cwd, 'checkout', *([u] if u else []), answers = answers, passwords = pw)
    if rules: team.world.server.rules([])
    ctx.note('checkout with', k, u, answers[:1], r)
    ctx.check(r.kind == 'done', 'a checkout with wrong data (%s) hangs: %r' % (k, r))
    ctx.check(not r.ok, 'a checkout with wrong data (%s) is accepted' % k, (u, answers))
    after = snapshot(cwd)
    ctx.check(after == before, 'a refused checkout (%s) leaves something or changes something' % k, sorted(set(after) ^ set(before)))
    ctx.count('refused'); ctx.count('refused_' + kind)
    ctx.evaluated(('refused', k, r.exc, answers[0] == user))
    if clean:
        for base, dirs, files in os.walk(clean, topdown = False):
            for x in files: os.remove(os.path.join(base, x))
            for x in dirs: os.rmdir(os.path.join(base, x))
        if os.path.isdir(clean): os.rmdir(clean)
        else: os.remove(clean)
