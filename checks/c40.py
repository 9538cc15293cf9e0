"""C40: a commit never touches the user's files, and one that fails leaves every change pending."""
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'a commit of any of kept, changed, deleted and new for four names (also in directories, also a directory in place of a file) with symbolic contents and any modification times; the connection '
                   'is lost, the session expires, the server dies or fails before any request or at any step; the client dies at any step; a file cannot be read; the head has moved on; somebody else '
                   'holds the lock; an upload is refused; then the commit is made again, also with some of the changes taken back',
          'thorough': 'two failures in a row'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/k': 3}

def plan(tier):
    q = tier == 'quick'
    n = 1 if q else 2
    return [dict(name='requests', fn='fails', params=dict(kinds=['closed', 'expired', 'lost'], n=n, few=q), covers=['failed', 'published', 'again', 'pending']),
            dict(name='refused', fn='fails', params=dict(kinds=['behind', 'locked', 'name', 'access'], n=n), covers=['failed', 'again', 'pending']),
            dict(name='server', fn='fails', params=dict(kinds=['server'], n=1, fixed=True), covers=['failed', 'published', 'again', 'pending']),
            dict(name='died', fn='fails', params=dict(kinds=['died'], n=n, fixed=True), covers=['failed', 'published', 'again', 'pending']),
            dict(name='undone', fn='fails', params=dict(kinds=['closed', 'server'], n=1, undo=True), covers=['failed', 'again', 'pending']),
            dict(name='read', fn='fails', params=dict(kinds=['read'], n=1), covers=['failed', 'again', 'pending'])]

def look(h, c):
    t = h.tree(c.wc, ('/.bvn/',))
    return t, {q: h.mtime(c.wc + q) for q in t}, sorted(d for d in h.dirs(c.wc) if not (d + '/').startswith('/.bvn/'))

def fails(h, kinds, n, fixed=False, few=False, undo=False):
    base = {q: h.lit(i) for q, i in BASE.items()}
    w = wc.Copy(h, base, timed=not fixed and not few and not undo); c = w.c; s = w.s
    loc = [('a', 'change'), ('n', 'deep')] if undo else [('a', 'change'), ('d', 'delete'), ('n', 'new')] if fixed else [('a', 'change'), ('d', 'delete' if few else h.pick('d', ['keep', 'delete'])), ('n', 'new')] if h.flag('usual') else h.pick('local', [[('a', 'dir'), ('n', 'deep')], [('a', 'delete')], [('n', 'deep'), ('d', 'delete')]])
    for who, x in loc:
        if x == 'change': w.write('/a', h.lit(20) if fixed or undo else h.content('c', 3))
        elif x == 'delete': w.rm('/a' if who == 'a' else '/d/x')
        elif x == 'dir': w.rm('/a'); w.write('/a/y', h.lit(21))
        elif x == 'new': w.write('/n', h.lit(22) if fixed or few else h.content('n', 3))
        elif x == 'deep': w.write('/d/n', h.lit(23)); w.write('/m/n', h.lit(24))
    how0 = h.pick('how', kinds) if len(kinds) > 1 else kinds[0]
    if how0 == 'name': w.write('/b\\.', h.lit(25)); w.write('/b\\..\\c', h.lit(26))
    st0 = c.local_changes()
    h.assume(st0 != {})
    before = look(h, c)
    for turn in range(n):
        how = how0
        st = {'n': 0, 'hit': False}
        v0 = s.head()
        locker = None
        if how == 'behind': s.version({'/z': h.lit(30)}); s.start()
        if how == 'locked':
            locker = s.connect('10.0.0.9'); t = s.session(locker)
            hd, _ = locker.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': v0})
            h.check(hd['status'] == 'ok', 'a commit cannot be begun')
        if how == 'access': s.users['u']['uses_repositories'] = []; s.start()
        if how in ('closed', 'expired', 'lost'):
            at = h.int('at', 0, 9)
            def hook(action, headers):
                m = st['n']; st['n'] += 1
                if at == m and not st['hit']:
                    st['hit'] = True
                    if how == 'closed': c.conns[-1].close()
                    elif how == 'expired': h.advance(10 ** 7)
                    else:
                        # the request is answered, but the answer is lost
                        k = c.conns[-1]; real = k.call
                        def call(*a, **kw):
                            k.call = real
                            try: real(*a, **kw)
                            finally: k.close()
                            raise lib.Closed('answer lost')
                        k.call = call
            c.hook = hook
        if how == 'server': h.arm(s.P)
        if how == 'read':
            at = h.int('at', 0, 6)
            def read(proc, path):
                if c.P is None or proc is not c.P.proc or not path.startswith(c.wc + '/') or '/.bvn' in path: return
                m = st['n']; st['n'] += 1
                if at == m and not st['hit']: st['hit'] = True; raise PermissionError(13, 'Permission denied')
            h.world.read_hook = read
        if how == 'died':
            c.process(); h.world.argv[:] = ['bvn', 'commit', '-m', 'm']
            h.arm(c.P)
            r = c.P.attempt(c.c.run)
            h.disarm(); h.assume(r.crashed); c.end()
        else: r = c.commit('m')
        c.hook = None; h.world.read_hook = None
        if how == 'server': h.disarm(); h.assume(s.P.dead); s.start()
        if how in ('closed', 'expired', 'lost', 'read'): h.assume(st['hit'])
        if locker is not None: locker.close()
        s.users['u']['uses_repositories'] = ['repo']
        if how == 'access': s.start()
        now = look(h, c)
        h.check(lib.same(now[0], before[0]), 'a commit changes the files of the working copy')
        h.check(all(now[1][q] == before[1][q] for q in before[1]), 'a commit changes the time of a file')
        h.check(now[2] == before[2], 'a commit creates or removes a directory')
        head = s.head()
        if how in ('behind', 'locked', 'access', 'name', 'read'): h.check(head == (v0 if how != 'behind' else s.history()[0]), 'a commit that must fail publishes something')
        if head != v0 and how != 'behind':
            h.cover('published')
            h.check(lib.same(s.files(), w.local), 'a commit publishes something else than the working copy')
            # the answer may not have arrived; what is still reported is what was reported before
            ch = c.local_changes()
            h.check(all(q in st0 and ch[q] == st0[q] for q in ch), 'after a commit other files are reported as changed')
            _, rev = c.manifest()
            h.check((rev == head and ch == {}) or (rev == w.v1 and ch == st0), 'a commit is half recorded')
            h.cover('failed'); h.cover('again')
            return
        h.cover('failed')
        h.check(not (r.ok and said_ok(h)), 'a commit that published nothing reports success')
        h.check(c.local_changes() == st0, 'after a failed commit the changes are not pending any more'); h.cover('pending')
        _, rev = c.manifest()
        h.check(rev == w.v1, 'a failed commit changes the recorded revision')
        if how == 'behind': break
    # and again
    if how0 == 'name':
        for q in ('/b\\.', '/b\\..\\c'): w.rm(q)
    h.advance(10 ** 5)
    if how0 == 'behind':
        h.check(c.update().ok, 'an update after a refused commit fails')
        w.local['/z'] = h.lit(30)
    h.assume(c.local_changes() != {})
    if undo:
        # some of what was to be committed is taken back with its directory
        h.rmtree(c.wc + '/m'); del w.local['/m/n']
    before = look(h, c) if undo else None
    r = c.commit('again')
    if undo:
        now = look(h, c)
        h.check(now[2] == before[2] and lib.same(now[0], before[0]), 'a commit after a failed one changes the working copy')
    h.check(r.ok, 'a commit after a failed one fails: ' + r.text())
    h.check(lib.same(s.files(), w.local), 'a commit after a failed one does not publish the working copy')
    h.check(c.local_changes() == {}, 'after a commit changes are pending')
    h.cover('again')

def said_ok(h):
    return any(isinstance(l, str) and 'commit ok' in l.lower() for a in h.world.out for l in a)
