"""C34: old working copies are migrated without losing track of changes."""
import fnmatch
import checks.lib as lib
BOUNDS = {'quick': 'five tracked files with symbolic times (quarters of a second), the old manifest also listing files that the version does not have; two of the files edited, deleted or '
                   'kept and a new one since; earlier versions, a head beyond the held version, no version; pull-ignore filters; either old name of the metadata directory and the filter '
                   'files; every command that starts with a migration; death before any step, connection lost before any request, then the command again',
          'thorough': 'two deaths'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/d/e/y': 3, '/k': 4}

def plan(tier):
    return [dict(name='migrate', fn='migrate', params=dict(), covers=['migrated', 'changed', 'unchanged', 'filtered', 'extra']),
            dict(name='times', fn='times', params=dict(), covers=['changed', 'unchanged']),
            dict(name='commands', fn='commands', params=dict(), covers=['migrated']),
            dict(name='interrupted', fn='interrupted', params=dict(times=1 if tier == 'quick' else 2), covers=['died', 'lost', 'migrated'])]

def setup(h, times=None, extra=False, root=False, name='.bvn', beyond=True, filters=b''):
    """A working copy with an old manifest."""
    s = lib.Server(h)
    base = {q: h.lit(i) for q, i in BASE.items()}
    s.version({'/a': h.lit(20)}); v = s.version(base)
    if beyond: s.version({'/z': h.lit(21)})
    s.start()
    c = lib.Client(h, s)
    files = {}
    if not root:
        for i, q in enumerate(sorted(base)):
            t = times[i] if times else 1000.25 + i
            h.write(c.wc + q, base[q], t)
            files[q] = {'path': q, 'last_mod': t, 'created': 5.5}
        if extra: files['/left'] = {'path': '/left', 'last_mod': 7.0, 'created': 5.5}
    if filters: h.write(c.wc + '/.bvn_pull_ignore', filters)
    man = {'format_version': 2, 'have_revision': 'root' if root else v, 'files': files}
    h.write(c.wc + '/.bvn/manifest.json', h.json(man))
    if name != '.bvn':
        h.rename(c.wc + '/.bvn', c.wc + '/' + name)
        for f in ('_ignore', '_pull_ignore'):
            if h.isfile(c.wc + '/.bvn' + f): h.rename(c.wc + '/.bvn' + f, c.wc + '/' + name + f)
    return s, c, base, ('root' if root else v), files

def judge(h, s, c, base, v, old, pulled, edited=()):
    man, rev = c.manifest()
    h.check(rev == v, 'the migration records another revision')
    want = [q for q in base if not any(fnmatch.fnmatch(q, f) for f in pulled)] if v != 'root' else []
    h.check(set(man) == set(want), 'the migrated manifest does not list exactly the files of the held version')
    for q in want:
        h.check(man[q]['last_mod'] == old[q]['last_mod'], 'the migration changes the recorded time of a file')
        h.check(man[q]['server_file_hash'] == h.sha(base[q]), 'the migration records a wrong hash')
    h.check(not h.exists(c.wc + '/.bvn/manifest.json'), 'a migrated manifest is migrated again')
    h.cover('migrated')

def edits(h, c):
    st = {}
    for q in ('/a', '/d/x'):
        op = h.pick('local' + q, ['keep', 'change', 'delete'])
        if op == 'change': c.write(q, h.lit(30)); st[q] = 'changed'
        elif op == 'delete': c.rm(q); st[q] = 'deleted'
    if h.flag('new'): c.write('/n', h.lit(31)); st['/n'] = 'new'
    return st

def migrate(h):
    root = h.flag('root')
    extra = not root and h.flag('extra')
    name = h.pick('name', ['.bvn', '.shttpfs'])
    pulled = h.pick('filters', [[], ['/d/*']])
    if pulled: h.cover('filtered')
    if extra: h.cover('extra')
    s, c, base, v, old = setup(h, extra=extra, root=root, name=name, beyond=h.flag('beyond'), filters=('\n'.join(pulled) + '\n').encode() if pulled else b'')
    if extra and h.flag('left'): c.write('/left', h.lit(32))
    st = edits(h, c) if not root else {}
    if not root and not pulled and h.flag('ignored'):
        # a tracked file that an ignore filter excludes counts as deleted (README)
        h.write(c.wc + ('/.shttpfs_ignore' if name != '.bvn' else '/.bvn_ignore'), b'/k\n'); st['/k'] = 'deleted'; st['/.bvn_ignore'] = 'new'
    r = c.run('list-versions')
    h.check(r.ok, 'a command on an old working copy fails: ' + r.text())
    judge(h, s, c, base, v, old, pulled)
    got = c.local_changes()
    want = {q: x for q, x in st.items() if not any(fnmatch.fnmatch(q, f) for f in pulled)}
    if extra and h.isfile(c.wc + '/left'): want['/left'] = 'new'
    h.check(got == want, 'after the migration the status is not that of before')
    for q in base: h.cover('changed' if q in st else 'unchanged')
    if '/k' in st: return
    # and work goes on
    mine = c.files()
    r = c.update()
    h.check(r.ok, 'after the migration an update fails: ' + r.text())
    r = c.commit()
    h.check(r.ok, 'after the migration a commit fails: ' + r.text())
    head = s.files(); now = c.files()
    h.check(all(q in now and now[q] == mine[q] for q in mine), 'after the migration an update loses local work')
    for q in base:
        if any(fnmatch.fnmatch(q, f) for f in pulled): h.check(q in head and head[q] == base[q], 'after the migration a pull-ignored file is changed on the server')
    keep = {q: x for q, x in head.items() if not any(fnmatch.fnmatch(q, f) for f in pulled)}
    h.check(lib.same(keep, {q: x for q, x in now.items() if q in keep or not any(fnmatch.fnmatch(q, f) for f in pulled)}), 'after the migration a commit does not publish the working copy')

def times(h):
    """The recorded and the actual times are anything."""
    ts = [h.real('recorded%d' % i, 0, 2000000000, 4) for i in range(4)]
    s, c, base, v, old = setup(h, times=ts)
    now = {}
    for i, q in enumerate(sorted(base)):
        if i < 2:
            now[q] = h.real('actual%d' % i, 0, 2000000000, 4)
            h.setmtime(c.wc + q, now[q])
        else: now[q] = ts[i]
    r = c.run('list-versions')
    h.check(r.ok, 'a command on an old working copy fails: ' + r.text())
    judge(h, s, c, base, v, old, [])
    got = c.local_changes()
    for i, q in enumerate(sorted(base)):
        same = True if now[q] is ts[i] else bool(now[q] == ts[i])
        h.check((q in got) == (not same), 'after the migration an edited file is not reported, or an unedited one is')
        h.cover('unchanged' if same else 'changed')

def commands(h):
    s, c, base, v, old = setup(h, beyond=False)
    st = edits(h, c)
    cmd = h.pick('command', [['list-versions'], ['list-files'], ['list-changes'], ['update'], ['update', '-f'], ['commit'], ['revert', '/k'], ['pull-ignore', '-f', '/zz']])
    r = c.run(*cmd, inputs=['yes'])
    h.check(r.ok, 'a command on an old working copy fails: ' + r.text())
    h.cover('migrated')
    h.check(not h.exists(c.wc + '/.bvn/manifest.json'), 'a command does not migrate the working copy')
    h.check(c.local_changes() == (st if cmd != ['commit'] else {}), 'after the migration the status is not that of before')
    if cmd == ['commit']: h.check(lib.same(s.files(), c.files()), 'a commit that migrates does not publish the working copy')

def interrupted(h, times):
    s, c, base, v, old = setup(h, extra=h.flag('extra'), name=h.pick('name', ['.bvn', '.shttpfs']), filters=b'/d/e/*\n')
    c.write('/a', h.lit(30)); c.rm('/d/x')
    how = h.pick('how', ['died', 'lost'])
    for t in range(times):
        if how == 'died':
            c.process()
            h.world.argv[:] = ['bvn', 'list-versions']
            h.arm(c.P)
            c.P.attempt(c.c.run)
            dead = h.crashed(c.P); h.disarm(); c.end()
            if not dead: break
            h.cover('died')
        else:
            at = h.int('at', 0, 3); n = {'n': 0}
            def hook(action, headers):
                if at == n['n']: c.conns[-1].close()
                n['n'] += 1
            c.hook = hook
            c.run('list-versions')
            c.hook = None
            h.cover('lost')
    r = c.run('list-versions')
    h.check(r.ok, 'after an interruption a command on an old working copy fails: ' + r.text())
    judge(h, s, c, base, v, old, ['/d/e/*'])
    h.check(c.local_changes() == {'/a': 'changed', '/d/x': 'deleted'}, 'after an interrupted migration the status is not that of before')
