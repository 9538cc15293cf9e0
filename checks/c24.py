"""C24: pull-ignore drops local files without ever deleting them on the server."""
import fnmatch
import checks.lib as lib
BOUNDS = {'quick': 'five tracked files in nested directories; filters for a path, a pattern, names relative to a subdirectory, several, everything, nothing; files deleted or kept; earlier '
                   'filters; one file locally changed, deleted or new, forced and not; death before any step, then the same again; then a commit of another file, and an update after the '
                   'server changed or deleted the dropped files',
          'thorough': 'every combination of the above dimensions; two deaths'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/d/e/y': 3, '/k': 4, '/m/o ': 5}
SEL = {'path': (['/a'], ''), 'dir': (['/d/*'], ''), 'relative': (['x'], '/d'), 'two': (['/d/x', '/m/*'], ''), 'three': (['/d/e/y', '/d/x', '/a'], ''), 'star': (['*'], ''),
       'none': (['/zz/*'], ''), 'name': (['a'], ''), 'suffix': (['*y'], ''), 'deep': (['e/*'], '/d'), 'wild': (['?', '[em]/*'], '/d')}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='clean', fn='clean', params=dict(sel=sorted(SEL), local=['keep'] if q else ['keep', 'changed', 'deleted', 'new'], after=['commit', 'deleted', 'changed']),
                 covers=['dropped', 'removed', 'kept', 'none', 'after']),
            dict(name='dirty', fn='clean', params=dict(sel=['path', 'dir'] if q else sorted(SEL), local=['changed', 'deleted', 'new', 'both'], after=['commit']), covers=['refused', 'dropped', 'removed']),
            dict(name='earlier', fn='clean', params=dict(sel=['dir', 'none'], local=['keep'], after=['commit', 'changed'], earlier=True), covers=['dropped', 'after']),
            dict(name='crash', fn='crash', params=dict(times=1 if q else 2), covers=['died', 'again'])]

def matches(filters, cwd):
    full = [f if f[0] in '/*' else cwd + '/' + f for f in filters]
    return full, lambda q: any(fnmatch.fnmatch(q, f) for f in full)

def setup(h):
    s = lib.Server(h)
    base = {q: h.lit(i) for q, i in BASE.items()}
    s.version(base); s.start()
    c = lib.Client(h, s)
    h.check(c.update().ok, 'an update fails')
    return s, c, base

def filters_of(h, c):
    f = c.wc + '/.bvn_pull_ignore'
    return h.read(f).decode('utf8').split('\n') if h.isfile(f) else []

def later(h, s, c, base, hit, how, dirty=()):
    """What follows must neither delete the dropped files on the server nor bring them back."""
    h.cover('after')
    before = c.files()
    if how == 'commit': h.write(c.wc + '/more', h.lit(50))
    elif how == 'changed': s.version({q: h.lit(60 + i) for i, q in enumerate(sorted(base))}); s.start()
    elif how == 'deleted': s.version({'/z': h.lit(61)}, sorted(base)); s.start()
    head = s.files()
    r = c.update(inputs=['client'] * 2)
    h.check(r.ok, 'after pull-ignore an update fails: ' + r.text())
    now = c.files()
    for q in base:
        if hit(q): h.check((q in now) == (q in before) and (q not in now or now[q] == before[q]), 'after pull-ignore an update touches a dropped file')
        elif how != 'commit' and q not in dirty: h.check((q in now) == (q in head) and (q not in now or now[q] == head[q]), 'after pull-ignore an update does not bring in other changes')
    h.write(c.wc + '/more2', h.lit(51))
    dropped = {q: head[q] for q in head if hit(q)}
    r = c.commit()
    h.check(r.ok, 'after pull-ignore a commit fails: ' + r.text())
    got = s.files()
    if not hit('/more2'): h.check('/more2' in got, 'after pull-ignore other files are not committed')
    for q in dropped: h.check(q in got and got[q] == dropped[q], 'after pull-ignore a commit deletes or changes a dropped file on the server')
    want = {q: x for q, x in c.files().items() if not hit(q)}
    want.update(dropped)
    if h.isfile(c.wc + '/.bvn_ignore'): want['/.bvn_ignore'] = h.read(c.wc + '/.bvn_ignore')
    h.check(lib.same(got, want), 'after pull-ignore a commit does not publish exactly the other files')

def clean(h, sel, local, after, earlier=False):
    s, c, base = setup(h)
    filters, cwd = SEL[h.pick('selection', sel)]
    full, hit = matches(filters, cwd)
    old = []
    if earlier:
        old = h.pick('earlier', [b'/zz', b'/zz\n', b'/zz\n/k\n'])
        if b'/k' in old:
            r = c.run('pull-ignore', '/k', inputs=['nothing'])
            h.check(r.ok, 'pull-ignore fails: ' + r.text())
        h.write(c.wc + '/.bvn_pull_ignore', old)
        old = [x for x in old.decode().split('\n') if x]
        full2, hit2 = matches(full + old, ''); hit = hit2
    op = h.pick('local', local)
    dirty = set()
    if op in ('changed', 'both'): h.write(c.wc + '/a', h.content('l', 3)); dirty.add('/a')
    if op in ('deleted', 'both'): h.rm(c.wc + '/d/x'); dirty.add('/d/x')
    elif op == 'new': h.write(c.wc + '/d/n', h.content('n', 3)); dirty.add('/d/n')
    force = h.flag('force')
    choice = h.pick('choice', ['delete', 'nothing', 'DELETE'])
    before = c.files(); status = c.local_changes(); man0, _ = c.manifest()
    r = c.run('pull-ignore', *((['-f'] if force else []) + filters), cwd=cwd, inputs=[choice])
    now = c.files(); man, _ = c.manifest()
    if status and not force:
        h.check(not r.ok, 'pull-ignore does not refuse to run with uncommitted changes')
        h.check(lib.same(now, before) and set(man) == set(man0) and filters_of(h, c) == [] + ([] if not earlier else filters_of(h, c)), 'a refused pull-ignore changes something')
        h.cover('refused'); return
    h.check(r.ok, 'pull-ignore fails: ' + r.text())
    rec = filters_of(h, c)
    for f in full + list(old): h.check(f in rec, 'pull-ignore does not record its filters')
    full_hit = matches(full, '')[1]
    for q in man0:
        if full_hit(q): h.check(q not in man, 'a file matching the filters stays in the manifest'); h.cover('dropped')
        else: h.check(q in man, 'a file matching no filter leaves the manifest')
    for q in before:
        if q in man0 and full_hit(q) and choice != 'nothing': h.check(q not in now, 'a file that the user chose to delete is still there'); h.cover('removed')
        else: h.check(q in now and now[q] == before[q], 'pull-ignore removes or changes a file that it should leave alone'); h.cover('kept')
    if not any(full_hit(q) for q in man0): h.cover('none')
    for q in now: h.check(q in before, 'pull-ignore creates a file')
    st = c.local_changes()
    h.check(st == {q: x for q, x in status.items() if not hit(q)}, 'after pull-ignore the status is not that of the other files')
    later(h, s, c, base, hit, h.pick('after', after), dirty)

def crash(h, times):
    s, c, base = setup(h)
    filters, cwd = SEL['three']
    full, hit = matches(filters, cwd)
    choice = h.pick('choice', ['delete', 'nothing'])
    old = b'/zz\n'
    h.write(c.wc + '/.bvn_pull_ignore', old)
    head = s.files()
    dead = True
    for t in range(times):
        if not dead: break
        c.process()
        h.world.argv[:] = ['bvn', 'pull-ignore'] + filters; h.world.inputs[:] = [choice]
        h.arm(c.P)
        r = c.P.attempt(c.c.run)
        dead = h.crashed(c.P); h.disarm(); c.end()
        if dead: h.cover('died')
    now = c.files()
    for q in base:
        if not hit(q): h.check(q in now and now[q] == base[q], 'an interrupted pull-ignore touches a file matching no filter')
        elif choice == 'nothing': h.check(q in now and now[q] == base[q], 'an interrupted pull-ignore deletes files that the user wanted to keep')
    h.check('/zz' in filters_of(h, c), 'an interrupted pull-ignore loses earlier filters')
    # a commit right away deletes nothing on the server
    if h.flag('commit'):
        h.write(c.wc + '/more', h.lit(50))
        r = c.commit()
        h.check(r.ok, 'after an interrupted pull-ignore a commit fails: ' + r.text())
        got = s.files()
        for q in base: h.check(q in got and got[q] == base[q], 'after an interrupted pull-ignore a commit deletes or changes a file on the server')
    # and it can be run again
    r = c.run('pull-ignore', '-f', *filters, inputs=[choice])
    h.check(r.ok, 'pull-ignore cannot be run again: ' + r.text())
    h.check(all(f in filters_of(h, c) for f in full), 'pull-ignore run again does not record its filters')
    h.check(all(not hit(q) for q in c.manifest()[0]), 'pull-ignore run again leaves a file in the manifest')
    h.cover('again')
    later(h, s, c, base, hit, h.pick('after', ['commit', 'changed']))
