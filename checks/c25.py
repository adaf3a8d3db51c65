""" keys made by the real keygen, unlocked with the right, nearly right and wrong passwords and after damage; every resulting key is judged by whether it signs for the printed public key """
import os, base64, builtins, unicodedata, json
import pysodium
from vlib import gen
from vlib.core import fork_call, lib
from vlib.world import run_cli, World, WC, b64, keypair

LEVEL = 'exploration'
RULE = ('a case runs the real keygen with a generated password (or none, with wrong answers and mistyped confirmations), searches what it printed and stored for the key and the password in many encodings, and unlocks the printed text with the password, with near misses and after damage, through the function all commands use and through real commands against a server which knows the public key; '
        'a key counts as usable if a signature made with it verifies for the printed public key. An evaluation is one attempt to unlock; distinct by kind of password and of miss or damage')
ASSUMPTIONS = ['the arguments of libsodium\'s functions are as documented']
REQUIRED = ['unlocked', 'wrong_refused', 'near_misses', 'damaged', 'without_password', 'text_searched', 'mistyped', 'commands_let_in', 'commands_refused', 'empty_password', 'asked_once', 'checkouts', 'same_password']
QUICK_WALL = 18
THOROUGH_WALL = 600

def plan(tier): return 48 if tier == 'quick' else 3000

def password(rng):
    return rng.choice(['', 'a', 'secret', 'pass word', ' lead', 'trail ', 'pässwörd', 'e\u0301clair', '日本語のパスワード', '\U0001F600\U0001F601', 'x' * 73, 'y' * 128 + 'z', 'q' * 5000, 'nul\0inside', 'tab\t', 'new\nline', '0', 'None', 'n', 'y', 'CaseSensitive',
                       ''.join(chr(rng.randrange(33, 0x250)) for _ in range(rng.randrange(1, 40)))])

def near(rng, pw):
    """ other passwords, close to it """
    out = ['', pw + ' ', ' ' + pw, pw + '\0', pw + '\n', pw[:-1], pw[1:], pw.swapcase(), pw.lower(), pw.upper(), pw + pw, pw[::-1], unicodedata.normalize('NFD', pw), unicodedata.normalize('NFC', pw), unicodedata.normalize('NFKC', pw), pw.strip(), pw[:72], pw[:64], pw[:32], pw[:8],
           pw.split('\0')[0], pw.encode('ascii', 'ignore').decode(), pw.encode('ascii', 'replace').decode(), 'y', 'n', 'other']
    if pw: 
        i = rng.randrange(len(pw)); out.append(pw[:i] + chr(ord(pw[i]) ^ 1) + pw[i + 1:]); out.append(pw[:-1] + chr(ord(pw[-1]) ^ 1))
    return sorted({x for x in out if x != pw})

def unlock(text, passwords):
    """ -> (key or None, number of times it asked) """
    def body():
        import getpass
        asked = [0]; pw = list(passwords)
        def ask(*a, **k): asked[0] += 1; return pw.pop(0)
        getpass.getpass = ask
        from bversion import crypto
        try: return (crypto.unlock_private_key(text), asked[0], None)
        except Exception as e: return (None, asked[0], type(e).__name__) # pylint: disable=broad-except
    r = fork_call(body)
    if r[0] != 'ok': return (None, 0, repr(r))
    return r[1]

def signs_for(key, public):
    if not isinstance(key, bytes) or len(key) != pysodium.crypto_sign_SECRETKEYBYTES: return False
    try:
        sig = pysodium.crypto_sign_detached(b'a message', key)
        pysodium.crypto_verify_detached = getattr(pysodium, 'crypto_sign_verify_detached')
        pysodium.crypto_sign_verify_detached(sig, b'a message', public)
        return True
    except ValueError: return False

def forms(secret):
    out = []
    for s in (secret, secret[:32]):
        b = base64.b64encode(s); u = base64.urlsafe_b64encode(s)
        out += [s, s.hex().encode(), s.hex().upper().encode(), b.rstrip(b'='), u.rstrip(b'='), base64.b32encode(s).rstrip(b'='), s[::-1]]
    return out

def search(ctx, where, raw, secret, pw, public):
    """ raw: bytes in which neither the secret nor the password may be """
    ctx.count('text_searched')
    for f in forms(secret): ctx.check(f not in raw, 'the secret key is in clear in ' + where, None)
    # any alignment in the base 64 text
    for s in (secret[:32],):
        for k in range(3): ctx.check(base64.b64encode(s[k:k + 27]) not in raw, 'the secret key is in clear in ' + where)
    if len(pw) > 3:
        for e in (pw.encode(), pw.encode('utf-16-le'), base64.b64encode(pw.encode()).rstrip(b'='), pw.encode().hex().encode()):
            if len(e) > 6: ctx.check(e not in raw, 'the password is in clear in ' + where)

def guessing(ctx, d, pw, raw):
    log = os.path.join(ctx.dir, 'derivations')
    def watch():
        real = pysodium.crypto_pwhash
        def new(n, password, salt, ops, mem, *a, **k):
            with open(log, 'a', encoding = 'utf8') as f: f.write(json.dumps([bytes(salt).hex(), ops, mem, os.getpid()]) + '\n')
            return real(n, password, salt, ops, mem, *a, **k)
        pysodium.crypto_pwhash = new
    texts = []
    for p in (pw, pw + 'x'):
        r = run_cli(d, 'keygen', answers = ['y'], passwords = [p, p], before = watch)
        ctx.check(r.ok, 'keygen with a password fails: %r' % r, r.extra.get('tb'))
        lines = r.out.split('\n'); texts.append(base64.b64decode(lines[lines.index('Private key:') + 1], validate = True))
    same, other = texts
    # what two keys have in common only if their passwords are the same
    run = 0
    for i in range(min(len(raw), len(same))):
        run = run + 1 if raw[i] == same[i] and not (i < len(other) and raw[i] == other[i]) else 0
        ctx.check(run < 8, 'two keys with the same password share a part, which shows that it is the same and lets one guess serve for both', raw[:i + 1][-8:].hex())
    if os.path.exists(log): # the password hash is the one of libsodium
        calls = [json.loads(l) for l in open(log, encoding = 'utf8')]
        ctx.check(len({c[0] for c in calls}) >= len({c[3] for c in calls}), 'two keys have the same salt', calls)
        for _, ops, mem, _ in calls:
            ctx.check(ops >= pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE and mem >= pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, 'guessing the password of a key is cheaper than for interactive use', (ops, mem))
        ctx.count('derivations_seen', len(calls))
    ctx.count('same_password'); ctx.evaluated('same password')

def case(ctx):
    rng = ctx.rng
    d = os.path.join(ctx.dir, 'k'); os.makedirs(d)
    # -------------------------------- without a password
    r = run_cli(d, 'keygen', answers = rng.choice([['n'], ['N'], ['', 'nope', 'n']]))
    ctx.check(r.ok, 'keygen fails: %r' % r, r.extra.get('tb'))
    lines = r.out.split('\n')
    text, public = lines[lines.index('Private key:') + 1], base64.b64decode(lines[lines.index('Public key: ') + 1], validate = True)
    key, asked, _ = unlock(text, [])
    ctx.check(signs_for(key, public), 'a key without password does not sign for the printed public key', (asked, type(key)))
    ctx.check(asked == 0, 'a key without a password asks for one')
    ctx.count('without_password'); ctx.evaluated(('plain',))
    plain, plain_key = text, key
    damage(ctx, plain, public, key, None, 3)
    # -------------------------------- with one
    pw = password(rng)
    if pw == '': ctx.count('empty_password')
    typed = [pw, pw]
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            case = [x for x in (pw.swapcase(), pw.lower(), pw.upper(), pw.strip(), unicodedata.normalize('NFD', pw)) if x != pw]
            other = rng.choice(case) if case and rng.random() < 0.5 else rng.choice(near(rng, pw))
            typed = rng.choice([[pw, other], [other, pw], [other, pw]]) + typed
            ctx.count('mistyped')
    r = run_cli(d, 'keygen', answers = rng.choice([['y'], ['Y'], ['x', '', 'yes', 'y']]), passwords = typed)
    ctx.check(r.ok, 'keygen with a password fails: %r' % r, (r.extra.get('tb'), pw[:50]))
    ctx.check(not os.listdir(d), 'keygen writes files')
    lines = r.out.split('\n')
    text, public = lines[lines.index('Private key:') + 1], base64.b64decode(lines[lines.index('Public key: ') + 1], validate = True)
    raw = base64.b64decode(text, validate = True)
    ctx.note('password', repr(pw)[:60])
    ctx.check(text != plain and public not in (plain_key[32:],), 'the same key comes twice')
    key, asked, err = unlock(text, [pw])
    ctx.check(signs_for(key, public), 'the right password does not unlock a key that signs for the printed public key', (err, repr(pw)[:80]))
    ctx.check(asked == 1, 'the password is asked for %d times' % asked); ctx.count('asked_once')
    ctx.count('unlocked'); ctx.evaluated(('right', len(pw), pw.isascii()))
    search(ctx, 'the printed text', r.out.encode(), key, pw, public); search(ctx, 'the stored text', raw, key, pw, public); 
    for x in (key, key[:32]):
        for n in range(len(raw) - 31): 
            if raw[n:n + 32] == bytes(a ^ b for a, b in zip(x[:32], b'\x01' * 32)): ctx.check(False, 'the key is hardly hidden')
    # -------------------------------- other passwords
    for other in rng.sample(near(rng, pw), min(4 if ctx.quick else 12, len(near(rng, pw)))):
        got, asked, err = unlock(text, [other])
        ctx.check(not signs_for(got, public), 'another password unlocks the key', (repr(pw)[:60], repr(other)[:60]))
        ctx.check(got is None, 'another password gives a key that is not refused', (repr(pw)[:60], repr(other)[:60], repr(got)[:20]))
        ctx.count('wrong_refused'); ctx.count('near_misses'); ctx.evaluated(('near', len(other) - len(pw), other.lower() == pw.lower(), other == ''))
    # what is stored must not open by itself
    got, asked, err = unlock(b64(b'n' + raw[1:]), [])
    ctx.check(not signs_for(got, public), 'the key is usable without its password'); ctx.count('damaged')
    damage(ctx, text, public, key, pw, 4)
    # -------------------------------- two keys with one password share nothing, and guessing is not cheap
    if rng.random() < 0.6: guessing(ctx, d, pw, raw)
    # -------------------------------- commands
    if rng.random() < 0.35:
        def extra(config): config['users']['locked'] = {'public_key' : b64(public), 'uses_repositories' : ['repo']}
        world = World(ctx, users = ('ann',), extra_config = extra)
        wc = world.new_wc('w', 'ann')
        cfg = wc.config(); cfg.update(user = 'locked', private_key = text)
        with open(wc.path + '/.bvn/client_configuration.json', 'w') as f: json.dump(cfg, f)
        wc.write('/f', b'data')
        for cmd in (('commit', '-m', 'm'), ('update',), ('list-versions',)):
            bad = rng.choice(near(rng, pw))
            world.server.rules([])
            r = world.cli(wc, *cmd, passwords = [bad])
            ctx.check(r.kind == 'done' and not r.ok, 'a command with a wrong password is carried out', (cmd, repr(bad)[:50])); ctx.count('commands_refused')
            r = world.cli(wc, *cmd, passwords = [pw])
            ctx.check(r.ok, 'a command with the right password fails: %r' % r, r.extra.get('tb')); ctx.count('commands_let_in')
        stored = b''
        for base, _, names in os.walk(wc.path + '/.bvn'):
            for x in names: stored += open(os.path.join(base, x), 'rb').read() + b'\n'
        search(ctx, 'the working copy', stored, key, pw, public)
        if world.wire().get_head() in (None, 'root'): ctx.check(False, 'nothing was committed')
        # -------------------------------- a checkout with it
        d = os.path.join(ctx.dir, 'checkouts'); os.makedirs(d)
        url = 'http://%s:%d/repo' % world.server.addr
        bad = rng.choice(near(rng, pw))
        r = world.cli(d, 'checkout', url, answers = ['locked', text], passwords = [bad])
        ctx.check(r.kind == 'done' and not r.ok, 'a checkout with a wrong password is carried out', repr(bad)[:50])
        ctx.check(not os.listdir(d), 'a refused checkout leaves something', os.listdir(d))
        r = world.cli(d, 'checkout', url, answers = ['locked', text], passwords = [pw])
        ctx.check(r.ok, 'a checkout with the right password fails: %r' % r, r.extra.get('tb')); ctx.count('checkouts')
        co = WC(os.path.join(d, 'repo'), wc.times)
        for base, _, names in os.walk(co.path):
            for x in names:
                raw = open(os.path.join(base, x), 'rb').read(); where = 'the checkout (%s)' % x
                search(ctx, where, raw, key, pw, public)
                if x == 'client_configuration.json':
                    for v in json.loads(raw).values():
                        try: search(ctx, where, base64.b64decode(v), key, pw, public)
                        except (ValueError, TypeError): pass
        search(ctx, 'the output of checkout', r.out.encode(), key, pw, public)
        co.write('/more', b'more')
        r = world.cli(co, 'commit', '-m', 'm', passwords = [bad])
        ctx.check(r.kind == 'done' and not r.ok, 'a command in a checkout with a wrong password is carried out', repr(bad)[:50])
        r = world.cli(co, 'commit', '-m', 'm', passwords = [pw])
        ctx.check(r.ok and 'Commit ok' in r.out, 'a command in a checkout with the right password fails: %r' % r, r.extra.get('tb'))
        # the stored key still has the password
        got, asked, err = unlock(co.config()['private_key'], [pw])
        ctx.check(asked == 1 and signs_for(got, public), 'the key stored by a checkout is not the one with the password', (asked, err))
        ctx.evaluated(('commands', len(pw) > 72))
    ctx.sample({'password_length' : len(pw), 'ascii' : pw.isascii(), 'mistyped' : len(typed) > 2})

def damage(ctx, text, public, key, pw, n):
    rng = ctx.rng
    raw = base64.b64decode(text)
    for _ in range(n if ctx.quick else 4 * n):
        k = rng.choice(['flip', 'flip', 'cut', 'longer', 'swap', 'zero', 'kind', 'head', 'text', 'empty'])
        b = bytearray(raw)
        t = None
        if k == 'flip': b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif k == 'cut': b = b[:rng.choice([1, 2, 16, 17, 40, 41, 57, len(b) - 1, rng.randrange(len(b))])]
        elif k == 'longer': b += bytes(rng.choice([1, 16]))
        elif k == 'swap':
            i, j = rng.randrange(1, len(b)), rng.randrange(1, len(b)); b[i], b[j] = b[j], b[i]
        elif k == 'zero':
            i = rng.randrange(1, len(b)); b[i:i + 8] = bytes(len(b[i:i + 8]))
        elif k == 'kind': b[0] = rng.choice(b'yYnN\0z')
        elif k == 'head': del b[1 + rng.randrange(40)]
        elif k == 'empty': b = bytearray()
        elif k == 'text': t = text[:rng.randrange(len(text))]; b = None
        if b is not None: t = b64(bytes(b))
        try: same = base64.b64decode(t) == raw
        except ValueError: same = False
        if same: continue
        got, asked, err = unlock(t, [pw or ''] * 3)
        usable = signs_for(got, public)
        if usable and got == key and pw is None and b is not None and bytes(b[1:]) == raw[1:]: continue # any kind but the protected one stands for none
        ctx.check(not usable, 'a damaged key is usable', (k, t))
        if pw is not None and b is not None and len(b) > 0 and b[0] == raw[0]: ctx.check(got is None, 'a damaged protected key is not refused', (k, repr(got)[:40]))
        ctx.count('damaged'); ctx.evaluated(('damaged', k, pw is None, err))
