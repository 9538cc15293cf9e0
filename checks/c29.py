"""C29: garbage collection removes only, and all, unreachable objects."""
import checks.lib as lib
BOUNDS = {'quick': 'histories of up to three versions over nested directories with symbolic contents (equal to each other or not), whose last versions were cut off (their objects may still '
                   'be shared), with further unreachable file, tree and commit objects planted; no, an open or an interrupted commit (any step of uploading or finishing); commits that ended before, with or without anything to commit; the lock free '
                   'or held; a collection interrupted at any step and repeated; a client trying to begin a commit at any step of a collection and finishing it, right there or afterwards; the command over two '
                   'repositories, one of them locked for a while; transient database in the repository or elsewhere, or lost',
          'thorough': 'four versions, two interruptions'}
BUDGET = {'quick': 240, 'thorough': 850}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='leftovers', fn='leftovers', params=dict(n=3 if q else 4), covers=['shared', 'garbage', 'nothing']),
            dict(name='unfinished', fn='unfinished', params=dict(), covers=['open', 'finishing', 'completed', 'first']),
            dict(name='ended', fn='ended', params=dict(), covers=['finished', 'without', 'abandoned']),
            dict(name='locked', fn='locked', params=dict(), covers=['other-process', 'server']),
            dict(name='died', fn='died', params=dict(crashes=1 if q else 2), covers=['died']),
            dict(name='begin', fn='begin', params=dict(), covers=['refused', 'granted']),
            dict(name='command', fn='command', params=dict(), covers=['waited', 'free'])]

def objects(h, s, repo='repo'):
    return {q: d for q, d in h.tree(s.path(repo)).items() if q.startswith('/index/') or q.startswith('/files/')}

def at(kind, x): return '/' + kind + '/' + x[:2] + '/' + x[2:]

def reachable(h, s, repo='repo'):
    """The paths of all objects the head leads to."""
    P, st = s.store(repo, 'reader')
    out = set()
    def tree(t):
        out.add(at('index', t))
        o = P.run(st.read_tree_index_object, t)
        for f in o['files'].values(): out.add(at('files', f['hash']))
        for d in o['dirs'].values(): tree(d)
    v = P.run(st.get_head)
    while v != 'root':
        out.add(at('index', v))
        c = P.run(st.read_commit_index_object, v)
        tree(c['tree_root']); v = c['parent']
    P.end()
    return out

def build(h, s, n, sym=True, repo='repo'):
    c = [h.content('c%d' % i, 3) if sym else h.lit(i) for i in range(4)]
    vs = [s.version({'/a': c[0], '/d/b': c[1]}, repo=repo)]
    if n > 1: vs.append(s.version({'/a': c[2], '/d/e/f': c[1]}, repo=repo))
    if n > 2: vs.append(s.version({'/g': c[3]}, delete=['/d/b'], repo=repo))
    if n > 3: vs.append(s.version({'/a': c[0], '/h/b': c[2]}, repo=repo))
    return vs

def put(h, s, kind, data, repo='repo'):
    q = at(kind, h.sha(data))
    d = s.path(repo) + q[:q.rindex('/')]
    h.mkdirs(d)
    h.write(s.path(repo) + q, data)

def collect(h, s, repo='repo'):
    """(removed something allowed to be removed, status) of one collection."""
    P, vs = s.store(repo)
    r = P.attempt(vs.garbage_collect)
    P.end()
    return r

def free(h, s, repo='repo'):
    P, vs = s.store(repo)
    h.check(P.run(vs.lock) is True, 'the write lock is not free after a collection')
    P.end()

def exact(h, s, before, keep, repo='repo'):
    """Only and all unreachable objects are gone."""
    now = objects(h, s, repo)
    for q in keep:
        if q in before: h.check(q in now and now[q] == before[q], 'garbage collection removed a reachable object')
    for q in now: h.check(q in keep, 'garbage collection left an unreachable object')

def same(h, s, before, repo='repo'):
    now = objects(h, s, repo)
    h.check(len(now) == len(before) and all(q in now and now[q] == before[q] for q in before), 'something was removed or changed')

def leftovers(h, n):
    s = lib.Server(h)
    vs = build(h, s, n)
    cut = h.int('cut', 0, n)            # versions cut off at the end of the history
    if cut == n: h.rm(s.path() + '/head')
    elif cut: h.write(s.path() + '/head', vs[n - 1 - cut].encode('utf8'))
    if h.flag('file'): put(h, s, 'files', h.content('g', 4))
    if h.flag('tree'): put(h, s, 'index', b'{"type": "tree", "files": {}, "dirs": {}}')
    where = h.pick('transient', ['kept', 'lost'])
    if where == 'lost': h.rm(s.db())
    keep = reachable(h, s); before = objects(h, s)
    versions = {v: s.files(v) for v in s.history()}
    if any(q not in keep for q in before): h.cover('garbage')
    else: h.cover('nothing')
    if cut and any(q.startswith('/files/') and q in keep for q in before): h.cover('shared')
    if where == 'lost':
        P = h.proc('admin'); st = P.run(P.mod('bversion.storage.versioned_storage').versioned_storage, s.path())
        r = P.attempt(st.garbage_collect); P.end()
    else: r = collect(h, s)
    h.check(r.ok, 'garbage collection dies: ' + r.text())
    if cut == n:
        # commits without a head are suspicious, and may be left alone
        now = objects(h, s)
        if len(now): h.check(not r.value[0], 'a collection that left garbage reports success'); same(h, s, before)
    else:
        h.check(bool(r.value[0]), 'a collection fails without a reason')
        exact(h, s, before, keep)
    free(h, s)
    h.check(list(versions) == s.history(), 'the history changed')
    for v in versions: h.check(lib.same(s.files(v), versions[v]), 'a version changed')
    # and the repository goes on
    if cut != n:
        v = s.version({'/a': h.lit(5), '/new': h.lit(6)})
        h.check(s.files(v)['/new'] == h.lit(6), 'no commit after a collection')

def stage(h, s, first):
    """A commit, until it ends or dies."""
    P, vs = s.store()
    def go():
        vs.begin('u', 'ip', 't')
        for q, c in (('/a', h.lit(20)), ('/n/x', h.lit(1)), ('/n/y', h.lit(30))):
            h.write(s.path() + '/up', c)
            vs.fs_put_from_file(s.path() + '/up', {'path': q})
        if not first: vs.fs_delete([{'path': '/d/b'}])
        if not upto: vs.commit('m', 'u')
    upto = h.flag('open')
    if not upto: h.arm(P)
    P.attempt(go)
    dead = h.crashed(P)
    h.disarm(); P.end()
    return 'open' if upto else 'dead' if dead else 'done'

def unfinished(h):
    """Neither reachable objects nor those of an unfinished commit go, and the commit can be finished or given up afterwards."""
    U = {'u1': {'public_key': lib.PUB1, 'uses_repositories': ['repo']}}
    s = lib.Server(h, users=U)
    first = h.flag('first')
    if not first: build(h, s, 2, sym=False)
    put(h, s, 'files', h.lit(30)) if h.flag('left') else None          # garbage that the commit makes use of
    if first: s.store()[0].end()
    how = stage(h, s, first)
    keep = reachable(h, s); before = objects(h, s)
    if how == 'dead': h.cover('completed' if any(at('files', h.sha(h.lit(20))) == q for q in keep) else 'finishing')
    if how == 'open': h.cover('open')
    if first: h.cover('first')
    rows = h.rows(s.db(), 'select * from active_commit_exists')
    changes = {p: (x, st) for p, x, st in h.rows(s.db(), 'select path, hash, status from active_commit_changes')}
    r = collect(h, s)
    h.check(r.ok, 'garbage collection dies: ' + r.text())
    free(h, s)
    now = objects(h, s)
    for q in keep:
        if q in before: h.check(q in now and now[q] == before[q], 'garbage collection removed a reachable object')
    if len(rows):
        h.check(not r.value[0], 'a collection next to an unfinished commit reports success')
        same(h, s, before)
        for p in changes:
            if changes[p][1] != 'deleted' and at('files', changes[p][0]) in before:
                h.check(at('files', changes[p][0]) in now, 'garbage collection took an object of an unfinished commit')
        if how == 'open':
            P, vs = s.store()
            P.run(vs.begin, 'u', 'ip', 't', True)
            v = P.run(vs.commit, 'm', 'u'); P.end()
            f = s.files(v)
            h.check(f['/a'] == h.lit(20) and f['/n/x'] == h.lit(1) and f['/n/y'] == h.lit(30), 'the commit finished after a collection is not what was staged')
    else: exact(h, s, before, keep)

def locked(h):
    """Nothing happens without the lock."""
    s = lib.Server(h)
    vs = build(h, s, 3, sym=False)
    h.write(s.path() + '/head', vs[1].encode('utf8'))
    put(h, s, 'files', h.lit(30))
    before = objects(h, s)
    who = h.pick('who', ['other-process', 'server'])
    if who == 'server':
        s.start(); k = s.connect(); t = s.session(k)
        hd, _ = k.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': vs[1]})
        h.check(hd['status'] == 'ok', 'no commit can be begun')
        if h.flag('push'): k.call('push_file', {'session_token': t, 'repository': 'repo', 'path': '/x'}, h.lit(30))
    else:
        P, st = s.store('repo', 'other')
        h.check(P.run(st.lock) is True, 'the lock cannot be had')
    h.cover(who)
    before = objects(h, s)
    r = collect(h, s)
    h.check(r.ok, 'garbage collection dies: ' + r.text())
    h.check(not r.value[0], 'a collection without the lock reports success')
    same(h, s, before)
    # the lock is still held by its owner
    P2, st2 = s.store('repo', 'third')
    h.check(P2.run(st2.lock) is False, 'a refused collection took the lock from its holder')

def died(h, crashes):
    s = lib.Server(h)
    vs = build(h, s, 3, sym=False)
    cut = h.int('cut', 0, 2)
    h.write(s.path() + '/head', vs[2 - cut].encode('utf8'))
    put(h, s, 'files', h.lit(30)); put(h, s, 'files', h.alike(h.lit(30))); put(h, s, 'files', h.alike(h.lit(2)))
    keep = reachable(h, s); before = objects(h, s)
    versions = {v: s.files(v) for v in s.history()}
    for i in range(crashes):
        P, st = s.store()
        h.arm(P, 'crash%d' % i)
        P.attempt(st.garbage_collect)
        dead = h.crashed(P)
        h.disarm(); P.end()
        if not dead: break
        h.cover('died')
        for v in versions: h.check(lib.same(s.files(v), versions[v]), 'an interrupted collection changed a version')
    r = collect(h, s)
    h.check(r.ok and bool(r.value[0]), 'a collection after an interrupted one fails: ' + r.text())
    exact(h, s, before, keep)
    free(h, s)

def begin(h):
    """A client tries to begin a commit at any moment of a collection, and finishes it."""
    s = lib.Server(h)
    vs = build(h, s, 3, sym=False)
    h.write(s.path() + '/head', vs[1].encode('utf8'))
    put(h, s, 'files', h.lit(30))
    s.start(); k = s.connect(); t = s.session(k)
    old = s.files(vs[1])
    at_ = h.int('at', 0, 200)
    whole = h.flag('whole')             # the commit is complete before the collection goes on
    n = [0]; got = []
    def call(op, data=b'', **hd):
        try: return k.call(op, dict(hd, session_token=t, repository='repo'), data)[0]['status']
        except lib.Closed: return 'closed'
    def obs(proc, kind, detail):
        if got: return
        n[0] += 1
        if at_ == n[0] - 1:
            got.append(None)
            got[0] = call('begin_commit', user='u', previous_revision=vs[1])
            if got[0] == 'ok':
                got.append(call('push_file', h.lit(30), path='/x')); got.append(call('push_file', h.lit(3), path='/g'))
                if whole: got.append(call('commit', commit_message='m', mode='commit'))
    def quiet(proc, q): obs(proc, 'read', q)
    h.world.stmt_observers.append(obs); h.world.observers.append(obs); h.world.read_hook = quiet
    P, st = s.store()
    r = P.attempt(st.garbage_collect)
    h.world.stmt_observers.remove(obs); h.world.observers.remove(obs); h.world.read_hook = None
    P.end()
    h.check(r.ok, 'garbage collection dies: ' + r.text())
    h.assume(len(got) > 0)
    if got[0] == 'ok':
        h.cover('granted')
        h.check(got[1] == 'ok' and got[2] == 'ok', 'the lock holder is refused')
        h.check((got[3] if whole else call('commit', commit_message='m', mode='commit')) == 'ok', 'the lock holder is refused')
        h.check(lib.same(s.files(), dict(old, **{'/x': h.lit(30), '/g': h.lit(3)})), 'a commit next to a collection is not what was staged')
    else: h.cover('refused')
    h.check(lib.same(s.files(vs[1]), old), 'a version changed')

def command(h):
    """The tool collects in every repository, and waits for one that is in use."""
    over = h.flag('override')
    s = lib.Server(h, repos=['r1', 'r2'], override=over)
    keep = {}; before = {}
    for r in s.repos:
        vs = build(h, s, 3, sym=False, repo=r)
        h.write(s.path(r) + '/head', vs[0 if r == 'r1' else 1].encode('utf8'))
        put(h, s, 'files', h.lit(30), repo=r)
        keep[r] = reachable(h, s, r); before[r] = objects(h, s, r)
    who = h.pick('who', ['nobody', 'r1', 'r2'])
    if who != 'nobody':
        P, st = s.store(who, 'other')
        h.check(P.run(st.lock) is True, 'the lock cannot be had')
        waits = [h.int('waits', 1, 2)]
        def on_sleep(*a):
            same(h, s, before[who], who)
            waits[0] -= 1
            if waits[0] == 0: P.end()
        h.world.on_sleep = on_sleep
        h.cover('waited')
    else: h.cover('free')
    r, P2 = lib.admin(h, s.config()['repositories'], 'gc')
    h.check(r.ok, 'the command dies: ' + r.text())
    P2.end()
    h.world.on_sleep = None
    for r in s.repos: exact(h, s, before[r], keep[r], r); free(h, s, r)

def ended(h):
    """A commit that has ended, also one in which nothing was to be committed, is no obstacle."""
    s = lib.Server(h)
    vs = build(h, s, 2, sym=False)
    put(h, s, 'files', h.lit(30))
    s.start()
    k = s.connect(); t = s.session(k)
    b = dict(session_token=t, repository='repo')
    call = lambda op, data=b'', **hd: k.call(op, dict(b, **hd), data)[0]['status']
    h.check(call('begin_commit', user='u', previous_revision=vs[-1]) == 'ok', 'no commit can be begun')
    what = h.pick('what', ['nothing', 'taken back', 'not there', 'something'])
    if what in ('taken back', 'something'): h.check(call('push_file', h.content('n', 3), path='/n') == 'ok', 'no upload')
    if what in ('taken back', 'not there'): h.check(call('delete_files', b'{"files": "[{\\"path\\": \\"/n\\"}]"}') == 'ok', 'no deletion')
    mode = h.pick('mode', ['commit', 'abort'])
    h.check(call('commit', commit_message='m', mode=mode) == 'ok', 'a commit cannot be ended')
    if h.flag('closed'): k.close()
    h.cover('abandoned' if mode == 'abort' else 'finished' if what == 'something' else 'without')
    if mode == 'abort' or what != 'something': h.check(s.head() == vs[-1], 'the head moved although there was nothing to commit')
    keep = reachable(h, s); before = objects(h, s)
    h.check(at('files', h.sha(h.lit(30))) not in keep, 'harness: planted object is reachable')
    r = collect(h, s)
    h.check(r.ok, 'garbage collection fails after a commit has ended: ' + r.text())
    exact(h, s, before, keep); free(h, s)
