"""C30: key pairs, password protection of the private key."""
BOUNDS = {'quick': 'passwords of up to 2 arbitrary characters (right, wrong and mistyped), one altered byte at each position of the stored key with any other value',
          'thorough': 'passwords of up to 4 characters'}
ASSUMES = ['argon2, secretbox and ed25519 are ideal: a box opens only under the key, nonce and bytes it was made with']
CH = ((32, 126), (160, 0xd7ff))

def plan(tier):
    n = 2 if tier == 'quick' else 4
    return [dict(name='password', fn='password', params=dict(n=n), covers=['opened', 'refused']),
            dict(name='mistyped', fn='mistyped', params=dict(n=n - 1), covers=['first', 'second']),
            dict(name='plain', fn='plain', params=dict(), covers=['opened']),
            dict(name='altered', fn='altered', params=dict(), covers=['refused'])]

def lock(h, answers, pws):
    h.world.inputs[:] = answers; h.world.passwords[:] = pws
    P = h.proc('keygen')
    r = P.attempt(P.mod('bversion.crypto').make_keypair)
    h.check(r.ok, 'making a key pair failed: ' + r.text())
    h.check(h.world.passwords == [] and h.world.inputs == [], 'an answer was not asked for')
    return r.value

def unlock(h, priv, pws):
    h.world.inputs[:] = []; h.world.passwords[:] = pws
    P = h.proc('use')
    return P.attempt(P.mod('bversion.crypto').unlock_private_key, priv.decode('utf8') if not h.is_sym(priv) else priv)

def matches(sk, pub):
    import pysodium, base64
    try:
        pysodium.crypto_sign_verify_detached(pysodium.crypto_sign_detached(b'message', sk), b'message', base64.b64decode(pub))
        return True
    except ValueError: return False

def password(h, n):
    import base64
    pw = h.text('pw', range(1, n + 1), CH)
    priv, pub = lock(h, ['y'], [pw, pw])
    raw = base64.b64decode(priv)
    other = h.text('other', range(1, n + 1), CH)
    r = unlock(h, priv, [other])
    h.obs('ok', r.ok)
    if other == pw:
        h.check(r.ok, 'the right password does not open the key: ' + r.text())
        h.check(matches(r.value, pub), 'the unlocked key does not match the public key')
        h.check(raw.find(r.value[:32]) < 0, 'the private key is stored in the clear')
        h.cover('opened')
    else:
        h.check(not r.ok, 'a wrong password opens the key')
        h.cover('refused')

def mistyped(h, n):
    a, b, c = [h.text(x, range(1, n + 1), CH) for x in 'abc']
    if a == b: pws = [a, b]; pw = a; h.cover('first')
    else: pws = [a, b, c, c]; pw = c; h.cover('second')
    priv, pub = lock(h, ['maybe', 'Y'], pws)
    r = unlock(h, priv, [pw])
    h.check(r.ok, 'the confirmed password does not open the key: ' + r.text())
    h.check(matches(r.value, pub), 'the unlocked key does not match the public key')

def plain(h):
    priv, pub = lock(h, ['n'], [])
    r = unlock(h, priv, [])
    h.check(r.ok, 'a key without password does not unlock: ' + r.text())
    h.check(matches(r.value, pub), 'the unlocked key does not match the public key')
    h.cover('opened')

def altered(h):
    import base64
    priv, pub = lock(h, ['y'], ['secret', 'secret'])
    raw = base64.b64decode(priv)
    i = h.choose('pos', len(raw))
    c = h.blob('byte', 1)
    h.assume(c[0] != raw[i])
    r = unlock(h, base64.b64encode(raw[:i] + c + raw[i + 1:]), ['secret'])
    # the first byte only says whether the key is sealed
    h.check(not r.ok or (i == 0 and not matches(r.value, pub)), 'an altered stored key still opens')
    h.cover('refused')
