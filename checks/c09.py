"""C09: a rolled-back working-copy transaction leaves the files as they were."""
import errno, sqlite3
import checks.lib as lib
BOUNDS = {'quick': 'journal level: any 2 operations out of write, move and delete over five paths (two files, a missing one, a directory with a file, a path in a missing '
                   'directory) and any 3 over three paths, then rollback (after a failing step always), or commit; any single failing primitive of any 2 operations '
                   '(file system or database) followed by rollback; put, move and delete of the client file system layer including one failing at any primitive and a '
                   'download that fails half way, with the manifest; contents symbolic, modification times symbolic',
          'thorough': 'any 3 operations over five paths, any 4 over two; faults in any 3'}
BUDGET = {'quick': 300, 'thorough': 850}
P5 = ['a', 'b', 'n', 'd', 'q/z']; P3 = ['a', 'b', 'n']

def plan(tier):
    q = tier == 'quick'
    out = [dict(name='seq', fn='seq', params=dict(n=2 if q else 3, paths=P5), covers=['failed', 'commit', 'rollback']),
           dict(name='seq-long', fn='seq', params=dict(n=3 if q else 4, paths=P3 if q else ['a', 'n']), covers=['commit', 'rollback']),
           dict(name='fault', fn='seq', params=dict(n=1 if q else 2, paths=P5, fault=True), covers=['fault']),
           dict(name='layer', fn='layer', params=dict(fault=False), covers=['failed', 'done', 'broken']),
           dict(name='layer-fault', fn='layer', params=dict(fault=True), covers=['fault'])]
    if q: out.append(dict(name='fault-2', fn='seq', params=dict(n=2, paths=['a', 'n'], fault=True), covers=['fault']))
    return out

def setup(h):
    base = h.p('/wc')
    h.mkdirs(base + '/.bvn')
    for i, q in enumerate(['/a', '/b', '/d/x']):
        h.write(base + q, h.content('c%d' % i, 3), mtime=1500000000 + h.real('t%d' % i, 0, 100000))
    P = h.proc('client')
    db = P.run(P.mod('bversion.storage.client_db').client_db, base + '/.bvn/manifest.db')
    j = P.run(P.mod('bversion.storage.journaling_filesystem').journaling_filesystem, db, base, '.bvn')
    return base, P, db, j

def snap(h, base):
    t = h.tree(base, ('/.bvn/',))
    return t, {q: h.mtime(base + q) for q in t}

def unchanged(h, base, before):
    now = snap(h, base)
    h.check(lib.same(now[0], before[0]), 'after a rollback the files are not what they were')
    for q in before[0]: h.check(now[1][q] == before[1][q], 'a rollback changed a modification time')

def fail_at(h, P):
    """One primitive of P, at a symbolic position, fails."""
    c = h.int('fault_at', 0, 10**6)
    st = {'n': 0, 'hit': False}
    def f(proc, kind, detail):
        if proc is not P.proc: return None
        n = st['n']; st['n'] += 1
        if not st['hit'] and c == n:
            st['hit'] = True
            return sqlite3.OperationalError('disk I/O error') if kind == 'sqlcommit' else OSError(errno.ENOSPC, 'No space left on device')
    h.world.fault = f
    return st

DIRS = ['', 'd']
def parent(q): return q.rpartition('/')[0]
def ops(paths):
    return [('put', q, None) for q in paths] + [('move', s, d) for s in paths for d in paths] + [('delete', q, None) for q in paths]

def model(m, op, data):
    """The files after op, or None when it must fail."""
    k, a, b = op
    m = dict(m)
    if k == 'put':
        if a in DIRS or parent(a) not in DIRS: return None
        m[a] = data
    elif k == 'move':
        if a not in m or b in DIRS or parent(b) not in DIRS: return None
        if a != b: m[b] = m.pop(a)
    else:
        if a not in m: return None
        del m[a]
    return m

def seq(h, n, paths, fault=False):
    base, P, db, j = setup(h)
    before = snap(h, base)
    m = {q[1:]: c for q, c in before[0].items()}
    P.run(j.begin)
    st = fail_at(h, P) if fault else None
    failed = False
    for i in range(n):
        op = h.pick('op%d' % i, ops(paths))
        data = h.content('w%d' % i, 3)
        k, a, b = op
        r = P.attempt(j.file_put_contents, a, data) if k == 'put' else P.attempt(j.move_file, a, b) if k == 'move' else P.attempt(j.delete_file, a)
        want = model(m, op, data)
        if st and st['hit']: h.cover('fault'); failed = True; break
        h.check(r.ok == (want is not None), 'a possible operation fails or an impossible one is not refused')
        if want is None: failed = True; h.cover('failed'); break
        m = want
    if fault and not st['hit']: h.world.fault = None; return
    h.world.fault = None
    if failed or h.flag('rollback'):
        h.cover('rollback')
        P.run(j.rollback)
        unchanged(h, base, before)
        h.check(P.run(db.get_fs_journal) == [], 'a rollback leaves journal entries')
        # the next transaction works
        P.run(j.begin); P.run(j.file_put_contents, 'a', h.lit(9)); P.run(j.commit)
        h.check(lib.same(h.tree(base, ('/.bvn/',)), dict(before[0], **{'/a': h.lit(9)})), 'a transaction after a rollback')
    else:
        h.cover('commit')
        P.run(j.commit)
        h.check(lib.same(h.tree(base, ('/.bvn/',)), {'/' + q: c for q, c in m.items()}), 'after a commit the files are not what the operations produce')
        # a later rollback does not touch what was committed
        after = snap(h, base)
        P.run(j.begin); P.run(j.file_put_contents, 'a', h.lit(9)); P.run(j.rollback)
        unchanged(h, base, after)

def layer(h, fault):
    base, P, db, j = setup(h)
    fs = P.run(P.mod('bversion.storage.client_filesystem_interface').client_filesystem_interface, db, j)
    def info(q): return dict(path='/' + q, last_mod=h.mtime(base + '/' + q), created=1.0, server_file_hash='h-' + q)
    for q in ('a', 'd/x'): P.run(db.add_file_to_manifest, info(q))
    P.run(db.commit)
    before = snap(h, base); man = P.run(db.get_manifest)
    m = {q[1:]: c for q, c in before[0].items()}
    k, a, b = h.pick('op', [('put', q, None) for q in P5] + [('broken', q, None) for q in P5] + [('move', s, d) for s in ('a', 'n', 'd/x') for d in P5] + [('delete', q, None) for q in P5 + ['d/x']])
    data = h.lit(8) if fault else h.content('w', 3)
    if fault: h.assume(a != b and k != 'broken' and model(m, (k, a, b), data) is not None)
    st = fail_at(h, P) if fault else None
    def broken(path):
        h.write(path, h.lit(7))
        raise OSError(errno.ECONNRESET, 'Connection reset by peer')
    if k == 'put': r = P.attempt(fs.fs_put, '/' + a, data, {'server_file_hash': 'new'})
    elif k == 'broken': r = P.attempt(fs.fs_put, '/' + a, broken, {'server_file_hash': 'new'})
    elif k == 'move': r = P.attempt(fs.fs_move, '/' + a, '/' + b)
    else: r = P.attempt(fs.fs_delete, '/' + a)
    h.world.fault = None
    want = None if k == 'broken' else model(m, (k, a, b), data)
    if st:
        if not st['hit']: return
        h.cover('fault')
    else: h.check(r.ok == (want is not None), 'a possible operation fails or an impossible one is not refused')
    # the manifest the next process sees
    P.end()
    P2 = h.proc('next')
    db2 = P2.run(P2.mod('bversion.storage.client_db').client_db, base + '/.bvn/manifest.db')
    now = P2.run(db2.get_manifest)
    h.check(P2.run(db2.get_fs_journal) == [], 'journal entries are left')
    files = h.tree(base, ('/.bvn/',))
    done = want is not None and (r.ok or st and lib.same(files, {'/' + q: c for q, c in want.items()}) and not lib.same(files, before[0]))
    if not done:
        h.cover('broken' if k == 'broken' else 'failed')
        unchanged(h, base, before)
        h.check(now == man, 'a failed operation changed the manifest')
        return
    h.cover('done')
    h.check(lib.same(files, {'/' + q: c for q, c in want.items()}), 'after the operation the files are not what it produces')
    exp = dict(man)
    if k == 'put': exp['/' + a] = dict(server_file_hash='new')
    elif k == 'move': i = exp.pop('/' + a); exp['/' + b] = dict(server_file_hash=i['server_file_hash'])
    else: exp.pop('/' + a, None)
    h.check(len(now) == len(exp) and all(q in now for q in exp), 'the manifest does not list the files')
    for q in exp:
        h.check(now[q]['server_file_hash'] == exp[q]['server_file_hash'] and now[q]['last_mod'] == h.mtime(base + q), 'a manifest entry does not describe its file')
