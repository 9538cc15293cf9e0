"""C27: restoring a backup gives back the repository."""
import json, struct
import checks.lib as lib, checks.remote as remote
BOUNDS = {'quick': 'contents of any size from 0 to four transfer chunks, with chunk sizes that differ between backup and restore; histories of up to three versions with symbolic '
                   'contents, backed up in one run or two, under one salt or two; up to three repositories backed up, not backed up, empty or never backed up; one alteration of the head, a commit, a directory or a file object on the '
                   'remote: any byte of it changed, cut at any length, lengthened, a chunk dropped, repeated or exchanged, exchanged with another object, replaced by the same or another content '
                   'unencrypted, taken from a backup under another password, or missing; a wrong password; a restore interrupted before any step by a crash or an error of the remote, and '
                   'a restore over that of an earlier backup; listings in pages of two',
          'thorough': 'contents of up to eight chunks; altered objects of every kind and place'}
ASSUMES = ['authenticated encryption is ideal: a sealed chunk opens only under its key, at its place in its stream and with its header']
BUDGET = {'quick': 240, 'thorough': 850}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='sizes', fn='sizes', params=dict(chunks=4 if q else 8), covers=['empty', 'exact', 'several']),
            dict(name='history', fn='history', params=dict(n=3), covers=['shared', 'salts']),
            dict(name='repositories', fn='repositories', params=dict(), covers=['not', 'empty', 'never']),
            dict(name='altered', fn='altered', params=dict(every=not q), covers=['refused']),
            dict(name='again', fn='again', params=dict(times=1 if q else 2), covers=['crash', 'error', 'earlier', 'restored']),
            dict(name='password', fn='password', params=dict(), covers=['wrong', 'right'])]

def exact(h, s, repo='repo'):
    """The restored place holds the head and every object of the history, and nothing else of it."""
    want = {'/head': h.read(s.path(repo) + '/head')}
    for need in remote.needs(h, s, repo).values():
        for k in need: want['/' + k] = h.read(s.path(repo) + '/' + k)
    got = {q: d for q, d in h.tree(s.path(repo) + '_restore').items() if q == '/head' or q.startswith('/index/') or q.startswith('/files/')}
    return len(want) == len(got) and all(q in got and got[q] == want[q] for q in want)

def usable(h, s, repo='repo'):
    """The restored repository verifies and gives the same versions."""
    d = s.path(repo) + '_restore'
    P = h.proc('after')
    vs = P.run(P.mod('bversion.storage.versioned_storage').versioned_storage, d)
    r = P.attempt(vs.verify_fs)
    h.check(r.ok and r.value[0] is True, 'a restored repository does not verify: ' + r.text())
    P.end()

def sizes(h, chunks):
    s = lib.Server(h)
    cs = h.pick('cs', [100, 1000]); cs2 = h.pick('cs2', [100, 333])
    a = h.content('a', 2, (0, chunks * 1000)); b = h.content('b', 2, (0, 10))
    h.assume(len(a) <= chunks * cs)
    if len(a) == 0: h.cover('empty')
    if len(a) == 2 * cs: h.cover('exact')
    if len(a) > 2 * cs: h.cover('several')
    s.version({'/a': a, '/d/b': b})
    r = remote.tool(h, s, 'backup', cs=cs)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    r = remote.tool(h, s, 'restore', cs=cs2)
    h.check(r.ok, 'a restore run fails: ' + r.text())
    h.check(exact(h, s), 'what is restored is not what was backed up')
    usable(h, s)

def build(h, s, n, sym=True, repo='repo'):
    c = [h.content('c%d' % i, 3, (1, 300)) if sym else h.lit(i) for i in range(3)]
    s.version({'/a': c[0], '/d/b': c[1], '/d/none': b''}, repo=repo)
    if n > 1: s.version({'/a': c[1], '/e/f/b': c[1], '/e/none': b''}, repo=repo)
    if n > 2: s.version({'/g': c[2]}, delete=['/d/b'], repo=repo)

def history(h, n):
    s = lib.Server(h)
    n = h.int('n', 1, n)
    build(h, s, n)
    steps = h.flag('steps')
    if steps:
        r = remote.tool(h, s, 'backup')
        h.check(r.ok, 'a backup run fails: ' + r.text())
        if h.flag('salt lost'): del h.world.s3.objects['salt_file']; h.cover('salts')
        s.version({'/a': h.lit(17), '/x/y': h.lit(18)}, delete=['/d/none'])
    r = remote.tool(h, s, 'backup', cs=300 if steps else 1000)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    r = remote.tool(h, s, 'restore')
    h.check(r.ok, 'a restore run fails: ' + r.text())
    h.check(exact(h, s), 'what is restored is not what was backed up')
    h.cover('shared')
    usable(h, s)
    h.check(lib.same(s.files(), restored(h, s)), 'the restored head version is not the original one')

def restored(h, s, repo='repo'):
    d = s.path(repo) + '_restore'
    P = h.proc('after')
    vs = P.run(P.mod('bversion.storage.versioned_storage').versioned_storage, d)
    out = {q: h.read(P.run(vs.get_file_directory_path, i['hash']) + '/' + i['hash'][2:]) for q, i in P.run(vs.get_commit_files, P.run(vs.get_head)).items()}
    P.end()
    return out

def repositories(h):
    """Repositories that are not in the backup do not get in the way of those that are."""
    names = ['r', 'ra', 'a']
    s = lib.Server(h, repos=names)
    what = {r: h.pick('what', ['backup', 'not', 'absent', 'empty', 'never']) for r in names}
    for r in names:
        if what[r] not in ('empty', 'never'): build(h, s, 2 if r == 'r' else 1, sym=False, repo=r)
        h.cover(what[r])
    d = remote.details(s)
    for r in names:
        if what[r] == 'not': d[r]['backup'] = False
        if what[r] == 'absent': del d[r]['backup']
    r = remote.tool(h, s, 'backup', d)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    for r in names:
        if what[r] == 'never': s.version({'/late': h.lit(3)}, repo=r)
    r = remote.tool(h, s, 'restore', d)
    h.check(r.ok, 'a restore run fails: ' + r.text())
    for r in names:
        if what[r] == 'backup': h.check(exact(h, s, r), 'what is restored is not what was backed up')
        else: h.check(not h.isfile(s.path(r) + '_restore/head'), 'a repository without a backup was restored')

def cut(d, cs):
    """Header and sealed chunks of a stored object (concrete sizes)."""
    hl = 4 + struct.unpack('!I', d[:4])[0]
    out = []; pos = hl; n = cs + 17 + 24
    while pos < len(d):
        end = min(pos + n, len(d))
        out.append(d[pos:end]); pos = end; n = cs + 17
    return d[:hl], out

def join(head, parts):
    d = head
    for p in parts: d = d + p
    return d

def altered(h, every):
    s = lib.Server(h)
    cs = 200
    big = h.lit(1, 450)
    v1 = s.version({'/a': h.lit(2), '/d/b': big})
    v2 = s.version({'/a': h.lit(3)})
    how = h.pick('how', ['flip', 'cut', 'longer', 'drop', 'repeat', 'swap', 'exchange', 'plain', 'forged', 'elsewhere', 'missing'])
    objs = h.world.s3.objects
    other = None
    if how == 'elsewhere':
        r = remote.tool(h, s, 'backup', cs=cs, pw='another')
        h.check(r.ok, 'a backup run fails: ' + r.text())
        other = dict(objs)
        for k in list(objs): del objs[k]
        h.world.s3.puts[:] = []
    r = remote.tool(h, s, 'backup', cs=cs)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    P, st = s.store()
    tree = P.run(st.read_commit_index_object, v1)['tree_root']
    sub = P.run(st.read_tree_index_object, tree)['dirs']['d']
    P.end()
    keys = {'head': 'repo/head', 'commit': 'repo/' + remote.at('index', v2), 'tree': 'repo/' + remote.at('index', sub), 'file': 'repo/' + remote.at('files', h.sha(big))}
    if every: keys.update({'first': 'repo/' + remote.at('index', v1), 'root': 'repo/' + remote.at('index', tree), 'small': 'repo/' + remote.at('files', h.sha(h.lit(3)))})
    k = keys[h.pick('object', list(keys))]
    d = objs[k]
    head, parts = cut(d, cs)
    n = len(parts)
    if how == 'flip':
        if h.flag('header'): new = h.flip(d, h.choose('pos', len(head)))
        else: new = h.flip(d, h.int('at', len(head), len(d) - 1))
    elif how == 'cut': new = d[:h.int('length', 0, len(d) - 1)]
    elif how == 'longer': new = d + (b'x' if h.flag('one') else d)
    elif how == 'drop': i = h.choose('chunk', n); new = join(head, parts[:i] + parts[i + 1:])
    elif how == 'repeat': i = h.choose('chunk', n); new = join(head, parts[:i] + [parts[i]] + parts[i:])
    elif how == 'swap':
        h.assume(n > 1)
        i = h.choose('chunk', n - 1); q = list(parts); q[i], q[i + 1] = q[i + 1], q[i]
        new = join(head, q)
    elif how == 'exchange':
        k2 = keys[h.pick('with', list(keys))]
        h.assume(k2 != k)
        new = objs[k2]; objs[k2] = d
    elif how in ('plain', 'forged'):
        j = json.loads(head[4:]); del j['E']
        j = json.dumps(j, separators=(',', ':')).encode()
        src = h.read(s.path() + k[4:])
        if how == 'forged': src = v1.encode() if k == 'repo/head' else h.read(s.path() + '/' + remote.at('index', v1)) if '/index/' in k else h.lit(9)
        new = struct.pack('!I', len(j)) + j + src
    elif how == 'elsewhere': new = other[k]
    if how == 'missing': del objs[k]
    else: objs[k] = new
    r = remote.tool(h, s, 'restore', cs=cs)
    if r.ok:
        h.cover('same')
        h.check(exact(h, s), 'an altered remote object was restored as if it were valid')
    else: h.cover('refused')

def again(h, times):
    """A restore into what an earlier one left, whatever became of that."""
    s = lib.Server(h)
    h.world.s3.page = h.pick('page', [2, 1000])
    s.version({'/a': h.lit(1), '/d/none': b''})
    s.version({'/d/b': h.lit(2, 450), '/e/b': h.lit(1)})
    s.version({}, ['/d/none'])
    if h.flag('earlier'):
        r = remote.tool(h, s, 'backup')
        h.check(r.ok, 'a backup run fails: ' + r.text())
        r = remote.tool(h, s, 'restore')
        h.check(r.ok, 'a restore run fails: ' + r.text())
        s.version({'/a': h.lit(2, 450), '/z': h.lit(5)})
        h.cover('earlier')
    r = remote.tool(h, s, 'backup', cs=200)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    for i in range(times):
        how = h.pick('how', ['crash', 'error'])
        if how == 'crash':
            P = h.proc('tool')
            m = P.mod('bversion.repo_manager')
            P.run(m.init, dict({'repositories': remote.details(s)}, **remote.extra(200)))
            h.world.argv[:] = ['bvn_repo', 'restore']
            h.arm(P, 'crash%d' % i)
            r = P.attempt(m.run)
            dead = h.crashed(P)
            h.disarm(); P.end()
        else:
            k = h.int('at%d' % i, 0, 120)
            seen = [0]; hit = []
            def fault(proc, kind, detail):
                if not kind.startswith('s3') or hit: return
                seen[0] += 1
                if k == seen[0] - 1: hit.append(1); raise OSError(5, 'connection lost')
            h.world.fault = fault
            r = remote.tool(h, s, 'restore', cs=200)
            h.world.fault = None
            dead = not r.ok
        h.check(dead or exact(h, s), 'a restore that reports success is not what was backed up')
        if dead: h.cover(how)
    r = remote.tool(h, s, 'restore', cs=200)
    h.check(r.ok, 'a restore cannot be run again: ' + r.text())
    h.check(exact(h, s), 'a restore run again does not give what was backed up')
    usable(h, s); h.cover('restored')

def password(h):
    s = lib.Server(h)
    build(h, s, 2, sym=False)
    r = remote.tool(h, s, 'backup')
    h.check(r.ok, 'a backup run fails: ' + r.text())
    pw = h.text('password', [5, 6, 7], ((97, 122),))
    r = remote.tool(h, s, 'restore', pw=pw)
    h.cover('right' if pw == 'secret' else 'wrong')
    h.check(r.ok == (pw == 'secret'), 'a backup is restored with another password, or not with its own: ' + r.text())
    if r.ok: h.check(exact(h, s), 'what is restored is not what was backed up')
