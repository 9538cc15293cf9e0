"""C18: a session is only given to a proven, authorised user."""
import checks.lib as lib
BOUNDS = {'quick': 'users with access to A, to A and B, and unknown; keys of either user or a damaged signature; three issued tokens (A from one address, B from it, A from '
                   'another) and a forged one, at a symbolic age of 0 to 60 s; the signature over that token or another; either address; repositories A, B, one that nobody may use and an unknown one, whose names begin with each other; '
                   'token used before or not; one connection or several; at most two things wrong at once; the same request sent again at any statement of the first; sessions taken up again at a symbolic age up to 4 h, from either address and either repository',
          'thorough': 'as quick with any number of things wrong at once, and with the transient databases at configured places'}
OUTSIDE = 'signatures are ideal: valid exactly when made with the private key over the same message'

def plan(tier):
    out = [dict(name='auth', fn='auth', params=dict(most=2), covers=['issued', 'refused', 'old', 'used']),
           dict(name='resume', fn='resume', params=dict(), covers=['refused']),
           dict(name='race', fn='race', params=dict(), covers=['during', 'after'])]
    if tier != 'quick':
        out += [dict(name='auth-override', fn='auth', params=dict(most=8, override=True), covers=['issued', 'refused', 'old', 'used']),
                dict(name='resume-override', fn='resume', params=dict(override=True), covers=['refused'])]
    return out

A, B, C = 'repo2', 'repo', 'repo22'        # each name begins with another one; C is not configured, or nobody may use it
IP1, IP2 = '10.0.0.1', '10.0.0.12'
USERS = {'u1': {'public_key': lib.PUB1, 'uses_repositories': [A]}, 'u2': {'public_key': lib.PUB2, 'uses_repositories': [B, A]}}
KEYS = [lib.PRIV1, lib.PRIV2]

def sign(token, key):
    import base64, pysodium
    return base64.b64encode(pysodium.crypto_sign_detached(token, base64.b64decode(key)[1:]))

def sessions(h, s):
    n = {}
    for r in s.repos:
        n[r] = len(h.rows(s.db(r), 'select * from session_tokens') or [])
    return n

def ask(c, repo, user, token, sig):
    try: hd, body = c.call('authenticate', {'client_version': '3', 'auth_token': token, 'signature': sig, 'user': user, 'repository': repo})
    except lib.Closed: return 'closed', None, b''
    return hd['status'], hd.get('session_token'), body

def auth(h, most, override=False):
    s = lib.Server(h, [A, B] + ([C] if h.flag('third') else []), USERS, override=override)
    c1 = s.connect(IP1); c2 = s.connect(IP2)
    toks = []
    for c, r, a in ((c1, A, IP1), (c1, B, IP1), (c2, A, IP2)):
        hd, _ = c.call('begin_auth', {'repository': r})
        toks.append((hd['auth_token'], r, a, h.now()))
    h.advance(h.real('age', 0, 60))
    ti = h.choose('token', 4)
    tok, trepo, taddr, tt = toks[ti] if ti < 3 else ('Zm9yZ2Vk' * 6, None, None, None)
    used = False
    user = h.pick('user', ['u1', 'u2', 'nobody']); ki = h.choose('key', 3); over = h.flag('over-other')
    repo = h.pick('repo', [A, B, C]); addr = h.pick('addr', [IP1, IP2])
    again = h.flag('used')
    # what is wrong with the request (any number of things in the thorough tier)
    wrong = 0
    for w in (ti == 3, ki == 2 or user == 'nobody', ki == 0 and user == 'u2' or ki == 1 and user == 'u1', user == 'u1' and repo != A,
              over, repo != trepo, addr != taddr, again):
        if w: wrong += 1
    h.assume(wrong <= most)
    if ti < 3 and again:
        # the token has already served its rightful owner
        i = 1 if trepo == B else 0
        st, _, _ = ask(c1 if taddr == IP1 else c2, trepo, ['u1', 'u2'][i], tok, sign(tok, KEYS[i]))
        used = st == 'ok'
        if h.now() - tt <= 29: h.check(used, 'a rightful owner is refused')
        h.advance(h.real('gap', 0, 4))
    sig = sign(toks[(ti + 1) % 3][0] if over else tok, KEYS[ki]) if ki < 2 else b'AAAA'
    before = sessions(h, s)
    c = s.connect(addr) if h.flag('new-connection') else (c1 if addr == IP1 else c2)
    st, sess, body = ask(c, repo, user, tok, sig)
    after = sessions(h, s)
    h.obs('status', st)
    proven = ti < 3 and repo == trepo and addr == taddr and not used and not over and \
             ((user == 'u1' and ki == 0 and repo == A) or (user == 'u2' and ki == 1))
    if proven and h.now() - tt > 30: proven = False; h.cover('old')
    if used: h.cover('used')
    if st == 'ok':
        h.check(proven, 'a session is given without proof of an authorised user')
        h.check(after[repo] <= before[repo] + 1 and all(after[r] <= before[r] for r in before if r != repo), 'a session for another repository came into being')
        # it is a session of that user: what it commits is that user's
        hd, _ = c.call('begin_commit', {'session_token': sess, 'repository': repo, 'user': user, 'previous_revision': 'root'})
        h.check(hd['status'] == 'ok', 'the session does not work')
        c.call('push_file', {'session_token': sess, 'repository': repo, 'path': '/x'}, h.lit(1))
        c.call('commit', {'session_token': sess, 'repository': repo, 'commit_message': 'm', 'mode': 'commit'})
        P, vs = s.store(repo)
        h.check(P.run(vs.read_commit_index_object, P.run(vs.get_head))['commit_by'] == user, 'the session belongs to another user')
        P.end()
        h.cover('issued')
    else:
        h.check(sess is None and len(body) == 0, 'a refusal carries a session or a body')
        h.check(all(after[r] <= before[r] for r in before), 'a refusal leaves a session behind')
        if proven and h.now() - tt <= 29: h.fail('a proven, authorised user is refused')
        h.cover('refused')

def race(h, override=False):
    """The same valid request twice, the second at any moment of the first."""
    s = lib.Server(h, [A, B], USERS, override=override)
    c1 = s.connect(IP1); c2 = s.connect(IP1)
    hd, _ = c1.call('begin_auth', {'repository': A})
    tok = hd['auth_token']; sig = sign(tok, lib.PRIV1)
    at = h.int('at', 0, 40)
    n = [0]; second = []
    def obs(proc, kind, detail):
        if second: return
        n[0] += 1
        if at == n[0] - 1:
            second.append(None)
            second[0] = ask(c2, A, 'u1', tok, sig)[0]
    h.world.stmt_observers.append(obs); h.world.observers.append(obs)
    first = ask(c1, A, 'u1', tok, sig)[0]
    h.world.stmt_observers.remove(obs); h.world.observers.remove(obs)
    if not second: second.append(ask(c2, A, 'u1', tok, sig)[0]); h.cover('after')
    else: h.cover('during')
    h.obs('both', [first, second[0]])
    h.check(not (first == 'ok' and second[0] == 'ok'), 'one token gives two sessions')
    h.check(sessions(h, s)[A] <= 1, 'one token gives two sessions')

def resume(h, override=False):
    """Taking up an existing session again."""
    import json
    s = lib.Server(h, [A, B], USERS, override=override)
    c1 = s.connect(IP1)
    t = s.session(c1, A, 'u2', lib.PRIV2)
    age = h.real('age', 0, 14400, 1)
    h.advance(age)
    if h.flag('other-gc'): s.session(s.connect(IP2), A, 'u1', lib.PRIV1)
    tok = h.pick('token', [t, 'x', '', t[:-1], '%'])
    repo = h.pick('repo', [A, B, C]); addr = h.pick('addr', [IP1, IP2])
    c = s.connect(addr) if h.flag('new-connection') else c1
    if c is c1: addr = IP1
    hd = {'client_version': '3', 'session_token': tok, 'repository': repo, 'user': 'u2'}
    before = sessions(h, s)
    try: hd, body = c.call('authenticate', hd); st = hd['status']
    except lib.Closed: st = 'closed'; hd = {}; body = b''
    after = sessions(h, s)
    h.obs('status', st)
    h.check(all(after[r] <= before[r] for r in before), 'a session came into being without proof')
    if st == 'ok':
        h.check(tok == t and repo == A and addr == IP1 and age <= 7200, 'a dead or foreign session is taken up again')
        h.check(hd['session_token'] == t, 'another session is given')
        h.cover('resumed')
    else:
        h.check('session_token' not in hd and len(body) == 0, 'a refusal carries a session')
        h.cover('refused')
