"""C11: update brings in every server change and keeps local work."""
import errno, sqlite3
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'three tracked files (one in a directory) and one untracked name; every combination without conflict of server-side (kept, changed, deleted, added, file replaced by '
                   'directory, directory replaced by file, two directories deep too) and local (kept, changed, deleted, added, replaced by a directory or a file) changes, symbolic contents, plain and full update; '
                   'versions that cancel out; a session that expires or a connection that breaks at any download, an operating system error at any step of the client, or at any change of a certain directory, followed by another update; another user\'s version that appears at any request of an update',
          'thorough': 'a fourth tracked file in a deeper directory; two failures'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/k': 3}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='flat', fn='flat', params=dict(deep=not q), covers=['merged', 'full', 'kept', 'both-deleted']),
            dict(name='kinds', fn='kinds', params=dict(), covers=['merged', 'in-the-way']),
            dict(name='cancel', fn='cancel', params=dict(), covers=['cancelled']),
            dict(name='broken', fn='broken', params=dict(times=1 if q else 2), covers=['expired', 'closed']),
            dict(name='moving', fn='moving', params=dict(), covers=['old', 'new', 'merged']),
            dict(name='failing', fn='failing', params=dict(times=1 if q else 2), covers=['incomplete', 'merged'])]

def judge(h, w, r, to_server=()):
    want = w.merged(to_server)
    files = w.c.files(); man, rev = w.c.manifest()
    if not wc.consistent(want):
        h.cover('in-the-way')
        h.check(rev == w.v1 or rev == 'root', 'a version is recorded as held although a local file is in the way of it')
        for q in w.touched:
            if q in w.local: h.check(q in files and files[q] == w.local[q], 'an update destroyed local work')
        return False
    h.check(r.ok, 'an update without conflict fails: ' + r.text())
    h.check(lib.same(files, want), 'after an update the files are not the server changes plus the local work')
    h.check(rev == w.v2, 'after an update the version is not recorded as held')
    h.check(w.c.local_changes() == w.status(to_server), 'after an update the status does not show exactly the local work')
    h.cover('merged')
    return True

def flat(h, deep):
    base = {q: h.lit(i) for q, i in BASE.items()}
    if deep: base['/d/e/y'] = h.lit(4)
    w = wc.Copy(h, base, timed=True)
    put, rm = {}, []
    for i, q in enumerate(sorted(base) + ['/n']):
        if q == '/k': continue
        sv = h.pick('server' + q, ['keep', 'change', 'delete'] if q in base else ['keep', 'change'])
        lo = h.pick('local' + q, ['keep', 'change', 'delete'] if q in base else ['keep', 'change'])
        h.assume(sv == 'keep' or lo == 'keep' or (sv == 'delete' and lo == 'delete'))
        if sv == 'change': put[q] = h.content('s%d' % i, 3)
        elif sv == 'delete': rm.append(q)
        if lo == 'change': w.write(q, h.content('l%d' % i, 3)); h.cover('kept')
        elif lo == 'delete': w.rm(q)
        if sv == 'delete' and lo == 'delete': h.cover('both-deleted')
    w.server(put, rm)
    full = h.flag('full')
    if full: h.cover('full')
    r = w.c.update(full)
    judge(h, w, r)

S = {'keep': ({}, []), 'a-dir': ({'/a/y': 30}, ['/a']), 'a-deep': ({'/a/y/z': 31}, ['/a']), 'd-file': ({'/d': 32}, ['/d/x']), 'both': ({'/a/y': 30, '/d': 32}, ['/a', '/d/x']),
     'swap': ({'/k/x': 33, '/d': 32}, ['/k', '/d/x']), 'n-dir': ({'/n/y': 34}, []), 'n': ({'/n': 35}, []), 'd-gone': ({}, ['/d/x']),
     'p-file': ({'/p': 37}, ['/p/q/r']), 'q-file': ({'/p/q': 37}, ['/p/q/r']), 'p-up': ({'/p/r': 37}, ['/p/q/r'])}
L = ['keep', 'a-dir', 'd-file', 'd-more', 'n', 'n-dir', 'd-gone', 'd-file-gone', 'p-file', 'p-more', 'p-gone']

def kinds(h):
    """Files become directories and directories become files, on either side."""
    base = {q: h.lit(i) for q, i in dict(BASE, **{'/p/q/r': 5}).items()}
    w = wc.Copy(h, base, timed=True)
    put, rm = S[h.pick('server', sorted(S))]
    lo = h.pick('local', L)
    if lo == 'a-dir': w.rm('/a'); w.write('/a/y', h.lit(40))
    elif lo == 'd-file': w.rm('/d/x', True); w.write('/d', h.lit(41))
    elif lo == 'd-more': w.write('/d/u', h.lit(42))
    elif lo == 'n': w.write('/n', h.lit(43))
    elif lo == 'n-dir': w.write('/n/u', h.lit(44))
    elif lo == 'd-gone': w.rm('/d/x', True)
    elif lo == 'd-file-gone': w.rm('/d/x')
    elif lo == 'p-file': w.rm('/p/q/r', True); w.write('/p', h.lit(45))
    elif lo == 'p-more': w.write('/p/v', h.lit(46))
    elif lo == 'p-gone': w.rm('/p/q/r', True)
    w.server(dict({q: h.lit(i) for q, i in put.items()}, **{'/k2': h.lit(36)}), rm)
    h.assume(not w.conflicts())
    r = w.c.update(h.flag('full'))
    if not judge(h, w, r):
        # the user moves the obstacle out of the way and updates again
        for q in list(w.local):
            if q in w.touched and any(wc.under(q, p) or wc.under(p, q) for p in w.head): w.rm(q, True)
        r = w.c.update()
        if wc.consistent(w.merged()): h.check(judge(h, w, r), 'an update remains impossible')

def cancel(h):
    base = {q: h.lit(i) for q, i in BASE.items()}
    w = wc.Copy(h, base, timed=True)
    x = h.pick('what', ['change', 'delete', 'add'])
    if x == 'change': w.server({'/a': h.lit(20)}); w.server({'/a': base['/a']})
    elif x == 'delete': w.server({}, ['/a']); w.server({'/a': base['/a']})
    else: w.server({'/n': h.lit(20)}); w.server({}, ['/n'])
    h.cover('cancelled')
    judge(h, w, w.c.update())
    w.write('/k', h.lit(21))
    h.check(w.c.commit().ok and lib.same(w.s.files(), w.local), 'after an update nothing can be committed')

def broken(h, times):
    base = {q: h.lit(i) for q, i in BASE.items()}
    w = wc.Copy(h, base, timed=True)
    w.write('/k', h.lit(25)); w.write('/u', h.lit(26))
    w.server({'/a': h.lit(20), '/d/x': h.lit(21), '/n': h.lit(22)}, [])
    for t in range(times):
        at = h.int('at', 0, 4); how = h.pick('how', ['expired', 'closed'])
        st = {'n': 0, 'hit': False}
        def hook(action, headers):
            if action != 'pull_file': return
            n = st['n']; st['n'] += 1
            if n == at:
                st['hit'] = True; h.cover(how)
                if how == 'expired': h.advance(10**7)
                else: w.c.conns[-1].close()
        w.c.hook = hook
        r = w.c.update()
        w.c.hook = None
        if st['hit']:
            _, rev = w.c.manifest()
            h.check(rev == w.v1, 'an update in which a download fails records the new version')
            ch = w.c.local_changes()
            h.check(ch == {'/k': 'changed', '/u': 'new'}, 'an update in which a download fails changes the local work')
        else: judge(h, w, r); return
    judge(h, w, w.c.update())

def failing(h, times):
    """Any step the client takes on its files fails once, for instance for want of permission or space."""
    base = {q: h.lit(i) for q, i in BASE.items()}; base['/e'] = h.lit(4); base['/d/z/g'] = h.lit(5)
    w = wc.Copy(h, base)
    w.write('/k', h.lit(25)); w.write('/u', h.lit(26))
    if h.flag('gone'): w.rm('/e')
    w.server({'/a': h.lit(20), '/m/n': h.lit(22)}, ['/d/z/g', '/d/x'] if h.flag('all') else ['/d/x'])
    for t in range(times):
        # once, or whenever an entry of a certain directory is to be created, renamed or removed
        where = h.pick('where', ['once', '', '/d', '/d/z', '/m'])
        at = h.int('fault_at', 0, 10 ** 6) if where == 'once' else 0
        st = {'n': 0, 'hit': False}
        def fault(proc, kind, detail):
            if w.c.P is None or proc is not w.c.P.proc: return None
            if where != 'once':
                if kind not in ('rename', 'remove', 'create', 'mkdir', 'rmdir'): return None
                for q in detail if isinstance(detail, tuple) else (detail,):
                    if str(q).rstrip('/').rpartition('/')[0].endswith(w.c.wc + where): st['hit'] = True; return OSError(errno.EACCES, 'Permission denied')
                return None
            n = st['n']; st['n'] += 1
            if not st['hit'] and at == n:
                st['hit'] = True
                return sqlite3.OperationalError('disk I/O error') if kind == 'sqlcommit' else OSError(errno.EACCES, 'Permission denied')
        h.world.fault = fault
        r = w.c.update()
        h.world.fault = None
        if not st['hit']: break
        _, rev = w.c.manifest()
        files = w.c.files()
        for q in ('/k', '/u'): h.check(q in files and files[q] == w.local[q], 'an update that failed changed local work')
        if rev != w.v2:
            h.cover('incomplete')
            h.check(rev == w.v1, 'an update that failed records another version')
        else:
            want = w.merged()
            h.check(lib.same(files, want), 'a version is recorded as held although the update did not bring all of it')
    judge(h, w, w.c.update())

def moving(h):
    """Another user's version appears at any moment of an update: the update brings in one version, exactly, and the next one the other."""
    base = {q: h.lit(i) for q, i in BASE.items()}
    w = wc.Copy(h, base, timed=True)
    w.write('/k', h.lit(25)); w.write('/u', h.lit(26))
    w.server({'/a': h.lit(20), '/d/x': h.lit(21), '/n': h.lit(22)}, [])
    later = {'put': {}, 'rm': []}
    for q in ('/a', '/d/x', '/n'):
        x = h.pick('then' + q, ['keep', 'change', 'delete'])
        if x == 'change': later['put'][q] = h.lit(30 + len(later['put']))
        elif x == 'delete': later['rm'].append(q)
    if h.flag('added'): later['put']['/v'] = h.lit(39)
    h.assume(later['put'] or later['rm'])
    at = h.int('at', 0, 6)
    st = {'n': 0, 'v3': None}
    def hook(action, headers):
        n = st['n']; st['n'] += 1
        if st['v3'] is None and at == n: st['v3'] = w.s.version(later['put'], later['rm'])
    w.c.hook = hook
    r = w.c.update()
    w.c.hook = None
    h.check(r.ok, 'an update fails because a version is added meanwhile: ' + r.text())
    _, rev = w.c.manifest()
    second = dict(w.head); second.update(later['put'])
    for q in later['rm']: second.pop(q)
    h.check(rev == w.v2 or (st['v3'] is not None and rev == st['v3']), 'an update records a version that is not there')
    if rev == w.v2: h.cover('old')
    else: w.head = second; w.v2 = rev; h.cover('new')
    want = w.merged()
    h.check(lib.same(w.c.files(), want), 'the files are not those of the version that is recorded as held')
    h.check(w.c.local_changes() == w.status(), 'after an update the status does not show exactly the local work')
    if st['v3'] is not None and rev != st['v3']:
        w.head = second; w.v2 = st['v3']
        judge(h, w, w.c.update())
