"""C10: a crash during a working-copy change leaves the old or the new file."""
import checks.lib as lib
BOUNDS = {'quick': 'put, move and delete over tracked, locally modified, untracked, missing and nested files, with the process dying before any of its file system or database '
                   'steps or half way through any write, and again in the start that follows; two operations of a smaller set interrupted one after the other, with symbolic contents',
          'thorough': 'the full set of operations twice; three interrupted operations of the smaller set; two interrupted starts'}
BUDGET = {'quick': 300, 'thorough': 850}
OPS = [('put', '/a', None), ('put', '/m', None), ('put', '/u', None), ('put', '/n', None), ('put', '/d/x', None), ('move', '/a', '/n'), ('move', '/a', '/d/x'),
       ('move', '/d/x', '/d/n'), ('delete', '/a', None), ('delete', '/m', None), ('delete', '/d/x', None)]
FEW = [('put', '/a', None), ('put', '/n', None), ('move', '/a', '/d/x'), ('delete', '/a', None)]

def plan(tier):
    q = tier == 'quick'
    out = [dict(name='once', fn='run', params=dict(ops=OPS, n=1, starts=1 if q else 2), covers=['old', 'new', 'start']),
           dict(name='twice', fn='run', params=dict(ops=FEW if q else OPS, n=2, starts=0), covers=['old', 'new'])]
    if not q: out.append(dict(name='thrice', fn='run', params=dict(ops=[('put', '/a', None), ('delete', '/a', None)], n=3, starts=0), covers=['old', 'new']))
    return out

class NoHTTP:
    def connect(self, *a, **k): pass

def start(h, k):
    """The next client process, up to the point where its command begins."""
    P = h.proc('client'); P.cwd = k.wc
    P.mod('bversion.http.http_client').HTTPClient = NoHTTP
    c = P.mod('bversion.client')
    return P, c, P.attempt(c.init)

def look(h, k):
    files = h.tree(k.wc, ('/.bvn/',))
    man, rev = k.manifest()
    return files, {q: (man[q]['server_file_hash'], man[q]['last_mod']) for q in man}

def describe(h, k, files, man, want_files, want_man):
    """Is this state (files, tracked hashes)?  A tracked file that was not modified must carry its recorded time."""
    return lib.same(files, want_files) and len(man) == len(want_man) and all(q in man and man[q][0] == want_man[q][0] and
        ((h.mtime(k.wc + q) == man[q][1]) == (want_man[q][1] == 'same')) for q in want_man)

def run(h, ops, n, starts):
    k = lib.Client(h, None)
    files = {'/a': h.content('a', 4), '/m': h.content('m', 4), '/u': h.content('u', 4), '/d/x': h.lit(20)}
    for q in files: h.write(k.wc + q, files[q])
    P, c, r = start(h, k)
    h.check(r.ok, 'the client does not start')
    for q, s in (('/a', 0), ('/m', 5), ('/d/x', 0)):
        P.run(c.cdb.add_file_to_manifest, dict(path=q, last_mod=h.mtime(k.wc + q) - s, created=1.0, server_file_hash='old' + q))
    P.run(c.cdb.commit); P.end()
    man = {'/a': ('old/a', 'same'), '/m': ('old/m', 'modified'), '/d/x': ('old/d/x', 'same')}
    for i in range(n):
        P, c, r = start(h, k)
        h.check(r.ok, 'the client does not start after an interruption')
        op, a, b = h.pick('op', ops)
        h.assume(a in files or op == 'put')
        if op == 'move': h.assume(a in man)
        data = h.content('w', 5)
        nf, nm = dict(files), dict(man)
        if op == 'put': nf[a] = data; nm[a] = ('new%d' % i, 'same')
        elif op == 'move': nf[b] = nf.pop(a); x = nm.pop(a); nm[b] = (x[0], 'same')
        else: nf.pop(a); nm.pop(a, None)
        h.arm(P)
        f = c.data_store
        if op == 'put': r = P.attempt(f.fs_put, a, data, {'server_file_hash': 'new%d' % i})
        elif op == 'move': r = P.attempt(f.fs_move, a, b)
        else: r = P.attempt(f.fs_delete, a)
        dead = h.crashed(P); h.disarm()
        if not dead: h.check(r.ok, 'an operation fails')
        P.end()
        for j in range(starts):
            P, c, r = start2(h, k)
            P.end()
        P, c, r = start(h, k)
        h.check(r.ok, 'the client does not start after an interruption')
        P.end()
        nowf, nowm = look(h, k)
        new = describe(h, k, nowf, nowm, nf, nm)
        old = describe(h, k, nowf, nowm, files, man)
        if not new and not old:
            h.check(lib.same(nowf, nf) or lib.same(nowf, files), 'after an interruption a file is neither old nor new')
            h.fail('after an interruption the manifest does not describe the files')
        h.check(dead or new, 'a completed operation has no effect')
        # what the user sees agrees
        if i == n - 1:
            ch = k.local_changes()
            tm = nm if new else man
            want = {q: 'changed' for q in tm if tm[q][1] == 'modified'}
            for q in nowf:
                if q not in tm: want[q] = 'new'
            h.check(ch == want, 'after an interruption the status is wrong')
        h.cover('new' if new else 'old')
        if new: files, man = nf, nm

def start2(h, k):
    P = h.proc('client'); P.cwd = k.wc
    P.mod('bversion.http.http_client').HTTPClient = NoHTTP
    c = P.mod('bversion.client')
    h.arm(P, 'start_crash')
    r = P.attempt(c.init)
    if h.crashed(P): h.cover('start')
    h.disarm()
    return P, c, r
