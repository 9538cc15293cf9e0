"""C33: checkout creates a complete working copy for the right user."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'repositories with no version, one, several; two users and two repositories; plain and password-protected keys; well-formed and malformed addresses, symbolic user names of '
                   'up to two characters; an existing file or directory of that name, the start in a subdirectory of another working copy; wrong key, password, user or repository; the '
                   'connection lost before any request; death before any step, then an update',
          'thorough': 'user names of up to four characters'}
BUDGET = {'quick': 300, 'thorough': 850}
URLS = ['http://srv/repo', 'https://srv:4443/repo', 'http://srv:8090/repo/', 'http://srv//repo', 'http://10.1.2.3/other', 'HTTP://SRV/repo', 'http://srv/repo?x#y', 'http://[::1]:80/repo']
BAD = ['ftp://srv/repo', 'srv/repo', 'http:///repo', 'http://srv', 'http://srv/', 'http://srv/a/b', '//srv/repo', 'repo', '', 'http:srv/repo', 'file:///repo']
FILES = {'/a': 1, '/d/x': 2, '/d/e/y': 3, '/.bvn_ignore': 4, '/e': 0}

def plan(tier):
    return [dict(name='checkout', fn='checkout', params=dict(), covers=['done', 'locked', 'empty']),
            dict(name='user', fn='user', params=dict(n=2 if tier == 'quick' else 4), covers=['done', 'refused']),
            dict(name='refused', fn='refused', params=dict(), covers=['malformed', 'exists', 'denied', 'lost']),
            dict(name='crash', fn='crash', params=dict(), covers=['died', 'done'])]

def setup(h, versions=2, users=None, prefix=None):
    s = lib.Server(h, repos=('repo', 'other'), users=users or {'u': {'public_key': lib.PUB1, 'uses_repositories': ['repo', 'other']}, 'test': {'public_key': lib.PUB2, 'uses_repositories': ['repo', 'other']}})
    files = {}
    for r in s.repos:
        f = {q: h.lit(i + (10 if r == 'other' else 0)) if i else b'' for q, i in FILES.items()}; f['/.bvn_ignore'] = b'*.zz\n'
        if versions == 1: s.version(f, repo=r)
        elif versions == 2:
            s.version({'/a': h.lit(20), '/gone': h.lit(21)}, repo=r); s.version(f, ['/gone'], repo=r)
        files[r] = f if versions else {}
    s.start()
    c = lib.Client(h, s, wc='/home', made=True)
    h.mkdirs(c.wc)
    return s, c, files

def locked(h, priv):
    """The key under a password, in the stored form."""
    import base64, pysodium
    h.world.inputs[:] = ['y']; h.world.passwords[:] = ['pass', 'pass']
    P = h.proc('keygen')
    sk = base64.b64decode(priv)[1:]
    m = P.mod('bversion.crypto')
    salt = b's' * pysodium.crypto_pwhash_SALTBYTES; nonce = b'n' * pysodium.crypto_box_NONCEBYTES
    key = P.run(m.hash_password, 'pass', salt)
    return base64.b64encode(b'y' + salt + nonce + pysodium.crypto_secretbox(sk, nonce, key)).decode()

def config(h, c, repo): return json.loads(h.read(c.wc + '/' + repo + '/.bvn/client_configuration.json'))

def judge(h, s, c, r, files, url, repo, user, key):
    h.check(r.ok, 'a checkout fails: ' + r.text())
    wc = c.wc + '/' + repo
    h.world.passwords[:] = ['pass'] * 3
    h.check(h.listdir(c.wc) == [repo], 'a checkout does not create exactly one directory named after the repository')
    cfg = config(h, c, repo)
    scheme, _, rest = url.partition('://')
    h.check(cfg['server_domain'] == scheme.lower() + '://' + rest.split('/')[0], 'a checkout saves another server')
    h.check(cfg['repository'] == repo, 'a checkout saves another repository')
    h.check(cfg['user'] == user, 'a checkout saves another user')
    h.check(cfg['private_key'] == key, 'a checkout does not save the key as it was given')
    k = lib.Client(h, s, wc='/home/' + repo, user=user, repo=repo, made=True)
    got = h.tree(wc, ('/.bvn/',))
    h.check(lib.same(got, files[repo]), 'after a checkout the files are not those of the head version')
    h.check(k.local_changes() == {}, 'after a checkout local changes are reported')
    h.check(k.manifest()[1] == s.head(repo), 'after a checkout the version is not recorded as held')
    k.write('/mine', h.lit(30))
    r = k.commit('m')
    h.check(r.ok and lib.same(s.files(repo=repo), dict(files[repo], **{'/mine': h.lit(30)})), 'after a checkout nothing can be committed: ' + r.text())
    h.cover('done')

def checkout(h):
    v = h.pick('versions', [0, 1, 2])
    if v == 0: h.cover('empty')
    s, c, files = setup(h, v)
    url = h.pick('url', URLS)
    repo = 'other' if url.endswith('other') else 'repo'
    user, key = h.pick('user', [('u', lib.PRIV1), ('test', lib.PRIV2)])
    if h.flag('locked'): key = locked(h, key); h.cover('locked')
    h.world.passwords[:] = ['pass']
    space = h.pick('typed', ['', ' \t'])
    r = c.run('checkout', url, inputs=[space + user + space, key + space])
    judge(h, s, c, r, files, url, repo, user, key)

def user(h, n):
    name = h.text('user', range(1, n + 1), ((33, 126), (0x4e00, 0x4e10)))
    s, c, files = setup(h, 1)
    right = h.pick('right', ['ab', '\u4e00'])
    s.users.clear(); s.users[right] = {'public_key': lib.PUB1, 'uses_repositories': ['repo', 'other']}; s.start()
    r = c.run('checkout', URLS[0], inputs=[name, lib.PRIV1])
    if name == right: judge(h, s, c, r, files, URLS[0], 'repo', right, lib.PRIV1)
    else:
        h.check(not r.ok and h.listdir(c.wc) == [], 'a checkout of an unknown user is not refused')
        h.cover('refused')

def refused(h):
    s, c, files = setup(h)
    how = h.pick('how', ['malformed', 'exists', 'denied', 'lost'])
    url, user, key = URLS[0], 'u', lib.PRIV1
    mine = {}
    if how == 'malformed': url = h.pick('url', BAD)
    elif how == 'exists':
        what = h.pick('what', ['file', 'directory', 'full', 'working copy'])
        if what == 'file': h.write(c.wc + '/repo', h.lit(40))
        elif what == 'directory': h.mkdirs(c.wc + '/repo')
        else: h.write(c.wc + '/repo/' + ('a' if what == 'full' else '.bvn/client_configuration.json'), h.lit(40))
    elif how == 'denied':
        w = h.pick('wrong', ['user', 'key', 'password', 'repository', 'blank user', 'blank key'])
        if w == 'user': user = 'nobody'
        elif w == 'key': key = lib.PRIV2
        elif w == 'password': key = locked(h, key)
        elif w == 'repository': url = 'http://srv/none'
        elif w == 'blank user': user = ' '
        elif w == 'blank key': key = ''
        h.world.passwords[:] = ['wrong']
    else:
        at = h.int('at', 0, 1); n = {'n': 0}
        def hook(action, headers):
            if at == n['n']: c.conns[-1].close()
            n['n'] += 1
        c.hook = hook
    before, dirs = h.tree(c.wc), h.dirs(c.wc)
    r = c.run(*(['checkout', url] if url or h.flag('given') else ['checkout']), inputs=[user, key])
    h.check(not r.ok, 'a checkout that should be refused succeeds')
    h.check(lib.same(h.tree(c.wc), before) and h.dirs(c.wc) == dirs, 'a refused checkout changes the file system')
    h.cover(how)

def crash(h):
    s, c, files = setup(h, 2)
    c.process()
    h.world.argv[:] = ['bvn', 'checkout', URLS[0]]; h.world.inputs[:] = ['u', lib.PRIV1]
    h.arm(c.P)
    c.P.attempt(c.c.run)
    dead = h.crashed(c.P); h.disarm(); c.end()
    if not dead:
        h.cover('done'); return
    h.cover('died')
    if not h.isfile(c.wc + '/repo/.bvn/client_configuration.json') or h.read(c.wc + '/repo/.bvn/client_configuration.json')[-1:] != b'}': return     # nothing of value there yet
    k = lib.Client(h, s, wc='/home/repo', made=True)
    r = k.update()
    h.check(r.ok, 'after an interrupted checkout an update fails: ' + r.text())
    h.check(lib.same(h.tree(k.wc, ('/.bvn/',)), files['repo']) and k.local_changes() == {}, 'after an interrupted checkout and an update the files are not those of the head version')
