"""C14: commit and update make working copies converge."""
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'three tracked files and two new names, every combination of kept, changed, deleted, created, replaced by a directory or by a file, with symbolic contents; directories two '
                   'deep; ignored, hidden and oddly named files; the first commit of an empty repository; a second working copy that is up to date, one version behind or empty; commits of '
                   'two working copies in turn',
          'thorough': 'a further file; three rounds of commits in turn'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/d/e/y': 3, '/k': 4}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='changes', fn='changes', params=dict(paths=['/a', '/d/x', '/n'] + ([] if q else ['/d/e/y'])), covers=['committed', 'nothing', 'converged']),
            dict(name='kinds', fn='kinds', params=dict(), covers=['committed', 'converged']),
            dict(name='first', fn='first', params=dict(), covers=['committed', 'converged']),
            dict(name='names', fn='names', params=dict(), covers=['committed', 'converged']),
            dict(name='turns', fn='turns', params=dict(n=3 if q else 4), covers=['committed', 'converged'])]

def all_files(h, c, ignored=()):
    t = h.tree(c.wc, ('/.bvn/', '/.bvn_pull_ignore'))
    return {q: t[q] for q in t if q not in ignored}

def commit(h, s, c, ignored=()):
    """A commit, and what must be true after it; False when there was nothing to commit."""
    before = s.head(); want = all_files(h, c, ignored); dirty = c.local_changes() != {}
    r = c.commit()
    h.check(r.ok, 'a commit fails: ' + r.text())
    moved = s.head() != before
    h.check(moved == dirty, 'a commit makes a version exactly when something changed, but did not')
    h.check(lib.same(s.files(), want), 'after a commit the head is not exactly the working copy')
    h.check(lib.same(all_files(h, c, ignored), want), 'a commit changes the working copy')
    h.check(c.local_changes() == {}, 'after a commit local changes are reported')
    man, rev = c.manifest()
    h.check(rev == s.head(), 'after a commit the new version is not recorded as held')
    h.check(set(man) == set(want) and all(man[q]['server_file_hash'] == h.sha(want[q]) for q in want), 'after a commit the manifest is not that of the version')
    h.cover('committed' if moved else 'nothing')
    return moved

def converge(h, s, c, ignored=()):
    r = c.update()
    h.check(r.ok, 'an update fails: ' + r.text())
    h.check(lib.same(all_files(h, c, ignored), s.files()), 'after an update a second working copy does not hold the same files')
    h.check(c.local_changes() == {}, 'after an update local changes are reported')
    h.check(c.manifest()[1] == s.head(), 'after an update the version is not recorded as held')
    h.cover('converged')

def setup(h, base):
    s = lib.Server(h)
    if base: s.version({q: h.lit(i) for q, i in base.items()}); s.start()
    c = lib.Client(h, s)
    if base: h.check(c.update().ok, 'an update fails')
    return s, c

def second(h, s):
    c = lib.Client(h, s, wc='/wc2', addr='10.0.0.2')
    return c

def changes(h, paths):
    s, c = setup(h, BASE)
    c2 = second(h, s)
    if h.flag('behind'): h.check(c2.update().ok, 'an update fails')
    for i, q in enumerate(paths):
        op = h.pick('op' + q, ['keep', 'change', 'delete'] if q in BASE else ['keep', 'change'])
        if op == 'change': lib.edit(h, c.wc + q, h.content('c%d' % i, 3)) if i == 0 else c.write(q, h.content('c%d' % i, 3))
        elif op == 'delete': c.rm(q)
    commit(h, s, c)
    converge(h, s, c2)

KINDS = {'a-dir': (['/a'], {'/a/y': 20}), 'a-deep': (['/a'], {'/a/y/z': 21}), 'd-file': (['/d'], {'/d': 22}), 'de-file': (['/d/e'], {'/d/e': 23}), 'x-dir': (['/d/x'], {'/d/x/u': 24}),
         'd-gone': (['/d'], {}), 'move': (['/a'], {'/m/a': 1}), 'copy': ([], {'/c': 1, '/d/c': 1}), 'swap': (['/a', '/d'], {'/a/d': 25, '/d': 26}), 'more': ([], {'/d/e/f/g': 27}),
         'all': (['/a', '/d', '/k'], {'/z': 28})}

def kinds(h):
    s, c = setup(h, BASE)
    c2 = second(h, s)
    if h.flag('behind'): h.check(c2.update().ok, 'an update fails')
    for i in range(2):
        gone, new = KINDS[h.pick('kind', sorted(KINDS))]
        for q in gone:
            h.assume(h.exists(c.wc + q) and (h.isdir(c.wc + q) or q != '/d'))
            h.rmtree(c.wc + q) if h.isdir(c.wc + q) else h.rm(c.wc + q)
        for q, n in new.items():
            p = q.rpartition('/')[0]
            while p:
                h.assume(not h.isfile(c.wc + p)); p = p.rpartition('/')[0]
            h.assume(not h.isdir(c.wc + q))
            c.write(q, h.lit(n))
        commit(h, s, c)
    converge(h, s, c2)

def first(h):
    s, c = setup(h, {})
    for q in ['/a', '/d/x', '/d/.h', '/.bvn_ignore']:
        if h.flag('there' + q): c.write(q, h.content('c', 2) if q != '/.bvn_ignore' else b'*.tmp\n')
    commit(h, s, c)
    c2 = second(h, s)
    if s.head() == 'root': return
    converge(h, s, c2)

NAMES = ['/-n', '/ lead', '/trail ', '/a: b', '/\u00fc\u4e2d', '/d/.hidden', '/x"y', '/[a]', '/per%20cent', '/a\\b', '/d/back', '/.bvnx', '/nested/.bvn', "/it's", '/a,b;c', '/tab\there', '/#h?q=1&r']

def names(h):
    """Names with a meaning somewhere, ignored files, empty and equal files."""
    s, c = setup(h, BASE)
    c2 = second(h, s)
    q1 = h.pick('name', NAMES)
    c.write(q1, h.content('c', 2, size=(0, 100)))
    ignored = set()
    if h.flag('ignore'):
        c.write('/.bvn_ignore', b'*.tmp\n/only/*\n')
        for q in ['/t.tmp', '/d/u.tmp', '/only/v', '/only/w/x']: c.write(q, h.lit(30)); ignored.add(q)
    c.write('/not/only/v', h.lit(31))
    commit(h, s, c, ignored)
    converge(h, s, c2)
    how = h.pick('then', ['delete', 'change', 'keep'])
    if how == 'delete': c2.rm(q1)
    elif how == 'change': c2.write(q1, h.lit(32))
    commit(h, s, c2)
    r = c.update()
    h.check(r.ok, 'an update fails: ' + r.text())
    h.check(lib.same(all_files(h, c, ignored), s.files()), 'after an update the first working copy does not hold the same files')

def turns(h, n):
    """Two working copies commit and update in turn."""
    s, c = setup(h, BASE)
    c2 = second(h, s)
    h.check(c2.update().ok, 'an update fails')
    for i in range(n):
        k, l = (c, c2) if i % 2 == 0 else (c2, c)
        q = h.pick('path', ['/a', '/d/x', '/n'])
        f = k.wc + q
        if h.isfile(f) and h.flag('delete'): h.rm(f)
        else: h.write(f, h.lit(33) if i < n - 1 else h.content('c', 2))
        commit(h, s, k)
        converge(h, s, l)
