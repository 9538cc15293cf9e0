"""C37: one working copy, one client at a time."""
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'a working copy with server-side and local changes (symbolic contents); any of update, commit, revert, pull-ignore, list-versions, status and checkout running in it, and any of update, commit, revert, '
                   'pull-ignore, status and list-files started next to it before any request, before any file system or database step, or while any file is read; the first one ends well, is '
                   'refused, loses its connection or dies at any step; just begun or 90 minutes old; also the recovery of an interrupted update, and commands in a subdirectory',
          'thorough': 'a second command tried twice'}
ASSUMES = ['both clients run on one machine, and the file system supports flock']
BUDGET = {'quick': 300, 'thorough': 850}
A = {'update': ['update'], 'commit': ['commit', '-m', 'm'], 'revert': ['revert', '/a'], 'pull-ignore': ['pull-ignore', '-f', '/e'], 'list-versions': ['list-versions'], 'status': ['status']}
B = {'update': ['update'], 'commit': ['commit', '-m', 'n'], 'revert': ['revert', '/a', '/m'], 'pull-ignore': ['pull-ignore', '-f', '/k'], 'status': ['status'], 'list-files': ['list-files']}
INPUTS = {'revert': ['yes'] * 2, 'pull-ignore': ['delete'] * 2}
BASE = {'/a': 1, '/d/x': 2, '/k': 3, '/e': 4}

def plan(tier):
    q = tier == 'quick'
    n = 1 if q else 2
    return [dict(name='request', fn='both', params=dict(when='request', n=n), covers=['tried', 'refused', 'done']),
            dict(name='step', fn='both', params=dict(when='step', n=n), covers=['tried', 'refused', 'done']),
            dict(name='read', fn='both', params=dict(when='read', n=n), covers=['tried', 'refused', 'done']),
            dict(name='recovery', fn='recovery', params=dict(), covers=['tried', 'refused']),
            dict(name='checkout', fn='checkout', params=dict(), covers=['tried', 'refused']),
            dict(name='released', fn='released', params=dict(), covers=['ok', 'exit', 'exc', 'crash'])]

def tree(h, c): return {q: d for q, d in h.tree(c.wc, ('/.bvn/',)).items()}

def setup(h, cmd, fixed=False):
    w = wc.Copy(h, {q: h.lit(i) for q, i in BASE.items()})
    w.write('/k', h.lit(10) if fixed else h.content('k', 3)); w.write('/u', h.lit(11))
    if cmd in ('update', 'revert', 'list-versions'): w.server({'/a': h.lit(13) if fixed else h.content('a', 3), '/n': h.lit(12)}, ['/d/x'])
    return w

def second(h, w, begun, n=1, names=None, cwds=('', '/d')):
    """A second client process on the same working copy, while the first one is at work."""
    h.cover('tried')
    for i in range(n):
        name = h.pick('second', names or sorted(B))
        o = lib.Client(h, w.s, made=True, addr='10.0.0.1')
        before = tree(h, w.c)
        argv = list(h.world.argv); inputs = list(h.world.inputs); out = list(h.world.out)
        o.hook = None
        conns = w.s.nconn
        r = o.run(*B[name], cwd=h.pick('cwd', list(cwds)) if h.isdir(w.c.wc + '/d') else '', inputs=INPUTS.get(name, ()))
        h.world.argv[:] = argv; h.world.inputs[:] = inputs
        if begun:
            h.check(not r.ok, 'a second client works on a working copy while another one does')
            h.check(lib.same(tree(h, w.c), before), 'a client that may not work on the working copy changes it')
            h.cover('refused')
        elif r.ok: h.cover('before'); return 'ran'
    return None

def expect(h, w, cmd, r):
    """The first command has done what it does alone."""
    h.check(r.ok, 'a command fails when another one is tried next to it: ' + r.text())
    files = w.c.files()
    want = dict(w.local)
    if cmd == 'update': want = w.merged()
    elif cmd == 'pull-ignore': want.pop('/e')
    elif cmd == 'commit': h.check(lib.same(w.s.files(), w.local), 'a commit next to which a command was tried does not publish the working copy')
    h.check(lib.same(files, want), 'a command does something else when another one is tried next to it')
    st = w.c.local_changes()
    h.check(st == ({} if cmd == 'commit' else {'/k': 'changed', '/u': 'new'}), 'the local changes are not reported after a command next to which another one was tried')
    h.cover('done')

def both(h, when, n):
    cmd = h.pick('first', sorted(A))
    w = setup(h, cmd); c = w.c
    at = h.int('at', 0, 60)
    st = {'n': 0, 'hit': False, 'busy': False, 'begun': False, 'ran': None, 'in': False}
    def moment(begun):
        if st['busy'] or st['hit']: return
        m = st['n']; st['n'] += 1
        if at == m:
            st['hit'] = st['busy'] = True
            if st['in'] and (when == 'read' or when == 'request' and h.flag('long')): h.advance(5400)       # the first one takes long
            st['ran'] = second(h, w, begun, n)
            st['busy'] = False
    def request(action, headers):
        st['begun'] = True
        if action not in ('begin_auth', 'authenticate'): st['in'] = True
        if when == 'request': moment(True)
    def step(proc, kind, detail):
        if c.P is None or proc is not c.P.proc: return
        moment(st['begun'])
    def read(proc, path):
        if c.P is None or proc is not c.P.proc or not path.startswith(c.wc + '/'): return
        if '/.bvn' not in path: moment(True)      # a user's file is read
    c.hook = request
    if when == 'step': h.world.observers.append(step)
    if when == 'read': h.world.read_hook = read
    r = c.run(*A[cmd], inputs=INPUTS.get(cmd, ()))
    c.hook = None; h.world.read_hook = None
    if when == 'step': h.world.observers.remove(step)
    h.assume(st['hit'])
    if st['ran'] is None: expect(h, w, cmd, r)

def recovery(h):
    """An interrupted update is being undone when the second client starts."""
    w = setup(h, 'update', True); c = w.c
    c.process()
    h.world.argv[:] = ['bvn', 'update']
    h.arm(c.P)
    r = c.P.attempt(c.c.run)
    h.disarm()
    h.assume(r.crashed)
    c.end()
    at = h.int('at', 0, 30)
    st = {'n': 0, 'hit': False, 'busy': False, 'begun': False}
    def step(proc, kind, detail):
        if c.P is None or proc is not c.P.proc or st['busy'] or st['hit']: return
        for q in detail if isinstance(detail, tuple) else [detail]:
            if q.startswith(c.wc + '/') and '/.bvn' not in q: st['begun'] = True
        if not st['begun']: return
        m = st['n']; st['n'] += 1
        if at == m:
            st['hit'] = st['busy'] = True
            second(h, w, True, 1, ['status', 'update'], ('',))
            st['busy'] = False
    h.world.observers.append(step)
    r = c.update()
    h.world.observers.remove(step)
    h.assume(st['hit'])
    h.check(r.ok, 'an update fails when another command is tried next to it: ' + r.text())
    h.check(lib.same(c.files(), w.merged()), 'an update does something else when another command is tried next to it')

def checkout(h):
    s = lib.Server(h)
    base = {'/a': h.content('a', 3), '/d/x': h.lit(2)}
    s.version(base); s.start()
    h.mkdirs(h.p('/home'))
    c = lib.Client(h, s, made=True); c.wc = h.p('/home')
    at = h.int('at', 0, 12)
    st = {'n': 0, 'hit': False}
    o = lib.Client(h, s, made=True, wc='/home/repo')
    def request(action, headers):
        m = st['n']; st['n'] += 1
        if at == m and h.isfile(h.p('/home/repo/.bvn/client_configuration.json')):
            st['hit'] = True; h.cover('tried')
            argv = list(h.world.argv)
            r = o.run('update')
            h.check(not r.ok, 'a second client works on a working copy that is being checked out'); h.cover('refused')
            h.world.argv[:] = argv
    c.hook = request
    r = c.run('checkout', 'http://srv/repo', inputs=['u', lib.PRIV])
    c.hook = None
    h.assume(st['hit'])
    h.check(r.ok, 'a checkout fails when another command is tried next to it: ' + r.text())
    h.check(lib.same(o.files(), base), 'a checkout is incomplete when another command is tried next to it')
    h.check(o.update().ok, 'nothing can be done in a new working copy')

def released(h):
    """However the first command ends, the next one can start."""
    cmd = h.pick('first', sorted(A))
    w = setup(h, cmd); c = w.c
    how = h.pick('how', ['well', 'refused', 'closed', 'died'])
    c.process()
    h.world.argv[:] = ['bvn'] + A[cmd]; h.world.inputs[:] = list(INPUTS.get(cmd, ()))
    if how == 'refused': h.advance(0); w.s.users['u']['uses_repositories'] = []; w.s.start()
    if how == 'closed':
        at = h.int('at', 0, 8); st = {'n': 0, 'hit': False}
        def cut(action, headers):
            m = st['n']; st['n'] += 1
            if at == m: st['hit'] = True; c.conns[-1].close()
        c.hook = cut
    if how == 'died': h.arm(c.P)
    r = c.P.attempt(c.c.run)
    c.hook = None
    if how == 'died': h.disarm(); h.assume(r.crashed)
    if how == 'closed': h.assume(st['hit'])
    h.cover(r.kind)
    c.end()
    w.s.users['u']['uses_repositories'] = ['repo']; w.s.start()
    r = c.run('status')
    h.check(r.ok, 'after a command no other can start: ' + r.text())
