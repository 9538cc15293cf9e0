"""C25: revert restores exactly the selected files to the chosen version."""
import fnmatch
import checks.lib as lib
BOUNDS = {'quick': 'three versions of five files in two directories, the middle one held; each of two files locally kept, changed or deleted, an untracked file; revert to the held, an older '
                   'or the head version (also when that is the held one) of a path, a pattern, several patterns, names relative to a subdirectory, or everything; pull-ignore filters; symbolic contents; files that became '
                   'directories and the reverse; an untracked file in the way; refusal at the prompt; death before any step, then the same again',
          'thorough': 'every combination of the above dimensions; two deaths'}
BUDGET = {'quick': 300, 'thorough': 850}
V = [{'/a': 1, '/d/x': 2, '/d/e/y': 3, '/k': 4, '/old': 5},
     {'/a': 11, '/d/x': 2, '/d/e/y': 13, '/k': 4, '/mid': 16},
     {'/a': 21, '/d/x': 22, '/k': 4, '/mid': 16, '/new': 27}]

SEL = {'path': (['/a'], ''), 'pattern': (['/d/*'], ''), 'two': (['/a', '/d/x'], ''), 'star': (['*'], ''), 'relative': (['x'], '/d'), 'name': (['a'], ''), 'deep': (['e/*'], '/d'), 'wild': (['?', '[ek]/*'], '/d'), 'dot': (['.*', 'x'], '/d'),
       'none': (['/zz'], ''), 'extra': (['/mid', '/old', '/new'], ''), 'all': (None, '')}

def plan(tier):
    q = tier == 'quick'
    c = ['reverted', 'untouched', 'held', 'other']
    if q: return [dict(name='select', fn='select', params=dict(sel=sorted(SEL), ops='one', pull=False), covers=c + ['nothing', 'removed']),
            dict(name='changes', fn='select', params=dict(sel=['two', 'all'], ops='two', pull=False), covers=c),
            dict(name='filters', fn='select', params=dict(sel=['pattern', 'star', 'all'], ops='one', pull=True), covers=c + ['ignored']),
            dict(name='newest', fn='select', params=dict(sel=['two', 'all'], ops='one', pull=False, newest=True), covers=c + ['removed']),
            dict(name='kinds', fn='kinds', params=dict(), covers=['reverted', 'in-the-way']),
            dict(name='refused', fn='refused', params=dict(), covers=['refused']),
            dict(name='crash', fn='crash', params=dict(times=1), covers=['died', 'reverted'])]
    return [dict(name='select', fn='select', params=dict(sel=sorted(SEL), ops='two', pull=False), covers=c + ['nothing', 'removed']),
            dict(name='filters', fn='select', params=dict(sel=sorted(SEL), ops='two', pull=True), covers=c + ['ignored']),
            dict(name='newest', fn='select', params=dict(sel=['two', 'all'], ops='one', pull=False, newest=True), covers=c + ['removed']),
            dict(name='kinds', fn='kinds', params=dict(), covers=['reverted', 'in-the-way']),
            dict(name='refused', fn='refused', params=dict(), covers=['refused']),
            dict(name='crash', fn='crash', params=dict(times=2), covers=['died', 'reverted'])]

def start(h, versions):
    """A repository with these versions, and a working copy that holds the last but one (the only one if there is one)."""
    s = lib.Server(h)
    ids, prev = [], {}
    c = None
    for i, v in enumerate(versions):
        if i == len(versions) - 1 and i:
            s.start(); c = lib.Client(h, s); h.check(c.update().ok, 'an update fails')
        new = {q: x for q, x in v.items() if q not in prev or prev[q] is not x}
        ids.append(s.version(new, [q for q in prev if q not in v]))
        prev = v
    s.start()
    return s, ids, c

def contents(h, vs):
    lits = {}
    return [{q: lits.setdefault(i, h.lit(i)) for q, i in v.items()} for v in vs]

def argv(which, ids, filters):
    out = ['revert']
    if which == 0 or which == 'v1': out += ['--v', ids[0]]
    elif which == 'head': out += ['-h']
    elif which == 'held-named': out += ['--v', ids[1]]
    return out + (['--all'] if filters is None else filters)

def judge(h, s, c, r, files, version, held, filters, cwd, before, status, tracked, pulled=(), blocked=()):
    """What a revert of `filters` to `version` (its files) must have made of the working copy that was `before`."""
    ign = lambda q: any(fnmatch.fnmatch(q, f) for f in pulled)
    if filters is None: sel = [q for q in files if not ign(q)]
    else:
        full = [f if f[0] in '/*' else cwd + '/' + f for f in filters]
        sel = [q for q in files if not ign(q) and any(fnmatch.fnmatch(q, f) for f in full)]
    gone = [q for q in tracked if q not in files and not ign(q)] if filters is None else []
    want = dict(before)
    for q in gone: want.pop(q, None)
    for q in sel: want[q] = files[q]
    if not sel and not gone: h.cover('nothing')
    else: h.check(r.ok, 'a revert fails: ' + r.text())
    now = c.files()
    for q in sel:
        h.check(q in now and now[q] == files[q], 'a selected file does not have the content of the chosen version')
        h.cover('reverted')
    for q in gone: h.check(q not in now, 'reverting all leaves a tracked file that the version does not contain'); h.cover('removed')
    for q in before:
        if q not in sel and q not in gone: h.check(q in now and now[q] == before[q], 'a file that was not selected was touched'); h.cover('untouched')
    for q in now: h.check(q in want, 'a file appears that was not selected')
    st = c.local_changes()
    if version == held:
        h.cover('held')
        for q in sel + gone: h.check(q not in st, 'after reverting to the held version a reverted file is reported as changed')
    else:
        h.cover('other')
        mid = s.files(held)
        for q in sel:
            if not (q in mid and mid[q] == files[q]):
                h.check(q in st and st[q] == ('changed' if q in mid else 'new'), 'after reverting to another version a reverted file is not reported')
        for q in gone:
            if q in mid: h.check(st.get(q) == 'deleted', 'after reverting to another version a removed file is not reported')
    for q in status:
        if q not in sel and q not in gone and not ign(q): h.check(st.get(q) == status[q], 'a revert changes the status of a file that was not selected')
    for q in st: h.check(q in status or q in sel or q in gone, 'a revert makes a file that was not selected appear as changed')
    return sel, gone

def edits(h, c, paths):
    for i, q in enumerate(paths):
        op = h.pick('local' + q, ['keep', 'change', 'delete'])
        if op == 'change': lib.edit(h, c.wc + q, h.content('l%d' % i, 3))
        elif op == 'delete': c.rm(q)
    c.write('/u', h.lit(40))

def select(h, sel, ops, pull, newest=False):
    vs = contents(h, V)
    s, ids, c = start(h, vs)
    have = 1
    if newest: h.check(c.update().ok, 'an update fails'); have = 2
    which = h.pick('version', ['held', 'v1', 'head', 'held-named'])
    k = {'held': have, 'held-named': have, 'v1': 0, 'head': 2}[which]
    filters, cwd = SEL[h.pick('selection', sel)]
    edits(h, c, ['/a'] if ops == 'one' else ['/a', '/d/x'])
    if h.flag('more'):
        c.write('/d/x', h.lit(41))
        if h.isdir(c.wc + '/d/e'): h.rmtree(c.wc + '/d/e')
    pulled = []
    if pull:
        pulled = [h.pick('pull-ignore', ['/d/*', '/a', '/mid'])]
        h.write(c.wc + '/.bvn_pull_ignore', pulled[0].encode() + b'\n')
        h.cover('ignored')
    before = c.files(); status = c.local_changes()
    r = c.run(*argv(which, [ids[0], ids[have]], filters), cwd=cwd, inputs=['yes'])
    s_, g_ = judge(h, s, c, r, vs[k], ids[k], ids[have], filters, cwd, before, status, V[have], pulled)
    if which == 'head' or newest or pull: return
    # what is left can be committed after an update
    r = c.update(inputs=['client'] * 2)
    h.check(r.ok, 'after a revert an update fails: ' + r.text())
    local = c.files()
    r = c.commit()
    h.check(r.ok and lib.same(s.files(), c.files()) and lib.same(c.files(), local), 'after a revert a commit does not publish the working copy')

def kinds(h):
    """Files that became directories, and the reverse."""
    vs = contents(h, [{'/d': 1, '/f/y': 2, '/k': 3}, {'/d/x': 4, '/f': 5, '/k': 3}, {'/d/x': 4, '/f': 5, '/k': 6}])
    s, ids, c = start(h, vs)
    lo = h.pick('local', ['keep', 'gone', 'other', 'in-the-way'])
    if lo == 'gone': h.rmtree(c.wc + '/d'); c.rm('/f')
    elif lo == 'other': h.rmtree(c.wc + '/d'); c.write('/d', h.lit(31)); c.rm('/f'); c.write('/f/y', h.lit(32))
    elif lo == 'in-the-way': c.write('/d/u', h.lit(33))
    which = h.pick('version', ['held', 'v1'])
    if which == 'held' and lo == 'other':        # what is in the way is not tracked
        before = c.files()
        r = c.run(*argv(which, ids, None), inputs=['yes'])
        now = c.files()
        h.check(all(q in now and now[q] == before[q] for q in ('/d', '/f/y')), 'a revert destroys an untracked file')
        h.cover('in-the-way'); return
    before = c.files(); status = c.local_changes()
    r = c.run(*argv(which, ids, None), inputs=['yes'])
    if lo == 'in-the-way' and which == 'v1':
        now = c.files()
        h.check('/d/u' in now and now['/d/u'] == before['/d/u'], 'a revert destroys an untracked file')
        h.check(now['/f/y'] == vs[0]['/f/y'], 'a file in the way of one file stops the revert of the others')
        h.cover('in-the-way'); return
    judge(h, s, c, r, vs[0 if which == 'v1' else 1], ids[0 if which == 'v1' else 1], ids[1], None, '', before, status, vs[1])

def refused(h):
    vs = contents(h, V)
    s, ids, c = start(h, vs)
    edits(h, c, ['/a'])
    before = c.files(); status = c.local_changes()
    how = h.pick('how', ['no', 'NO', 'unknown', 'closed'])
    a = argv('v1' if how != 'unknown' else 'held', ids, h.pick('selection', [None, ['/a', '/k']]))
    if how == 'unknown': a = ['revert', '--v', 'ab' * 32, '--all']
    if how == 'closed':
        n = {'n': 0}
        def hook(action, headers):
            n['n'] += 1
            if action == 'list_files': c.conns[-1].close()
        c.hook = hook
    r = c.run(*a, inputs=[how if how in ('no', 'NO') else 'yes'])
    c.hook = None
    h.check(not r.ok, 'a revert that could not be done reports success')
    h.check(lib.same(c.files(), before) and c.local_changes() == status, 'a revert that was refused touches the working copy')
    h.cover('refused')

def crash(h, times):
    """Dead at any step, then again."""
    vs = contents(h, V)
    s, ids, c = start(h, vs)
    c.write('/a', h.lit(30)); c.rm('/d/x'); c.write('/u', h.lit(31)); c.write('/k', h.lit(32))
    which = h.pick('version', ['held', 'v1']); k = {'held': 1, 'v1': 0}[which]
    every = h.flag('everything')
    filters = None if every else ['/a', '/d/*']
    before = c.files(); status = c.local_changes()
    dead = True
    for t in range(times):
        if not dead: break
        c.process()
        h.world.argv[:] = ['bvn'] + argv(which, ids, filters); h.world.inputs[:] = ['yes']
        h.arm(c.P)
        r = c.P.attempt(c.c.run)
        dead = h.crashed(c.P); h.disarm(); c.end()
        if dead:
            h.cover('died')
            now = c.files()
            h.check('/u' in now and now['/u'] == before['/u'], 'an interrupted revert touches an untracked file')
            if not every: h.check('/k' in now and now['/k'] == before['/k'], 'an interrupted revert touches a file that was not selected')
            for q in now: h.check((q in before and now[q] == before[q]) or (q in vs[k] and now[q] == vs[k][q]), 'an interrupted revert leaves a file with neither its old nor its new content')
    if dead: r = c.run(*argv(which, ids, filters), inputs=['yes'])
    judge(h, s, c, r, vs[k], ids[k], ids[1], filters, '', before, status, V[1])
