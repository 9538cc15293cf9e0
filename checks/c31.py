"""C31: an edit made while a commit is running is not lost."""
import checks.lib as lib
BOUNDS = {'quick': 'a commit of a changed, a new and a deleted file next to an unchanged one; one of them, or another name, is edited (with any modification time), put back, deleted, replaced by a directory or created '
                   'before any request of the commit, after the last, or while any file is read; symbolic contents; first commits and resumed ones',
          'thorough': 'two edits'}
ASSUMES = ['an edit gives the file a new modification time']
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/k': 3, '/e': 4}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='between', fn='edit', params=dict(when='request', n=1 if q else 2), covers=['edited', 'committed', 'reported', 'kept']),
            dict(name='reading', fn='edit', params=dict(when='read', n=1), covers=['edited', 'committed', 'reported', 'kept', 'published']),
            dict(name='resumed', fn='edit', params=dict(when='request', n=1, resumed=True, timed=not q), covers=['edited', 'committed', 'reported', 'kept'])]

def edit(h, when, n, resumed=False, timed=True):
    s = lib.Server(h)
    base = {q: h.lit(i) for q, i in BASE.items()}
    v1 = s.version(base); s.start()
    c = lib.Client(h, s)
    h.check(c.update().ok, 'an update fails')
    wc = c.wc
    times = {q: [h.mtime(wc + q)] for q in base}
    mine = {'/a': h.content('a', 3), '/n': h.content('n', 3)}
    for q in mine: h.write(wc + q, mine[q])
    h.rm(wc + '/d/x')
    if resumed:
        k = {'n': 0}
        at = h.pick('cut', [3, 4, 5])
        def cut(action, headers):
            k['n'] += 1
            if k['n'] == at: c.conns[-1].close()
        c.hook = cut
        c.commit()
        c.hook = None
    todo = []
    for i in range(n):
        todo.append((h.int('at', 0, 9), h.pick('path', ['/a', '/n', '/d/x', '/k', '/m']), h.pick('op', ['edit', 'delete', 'dir', 'back']), h.content('e', 3)))
    st = {'n': 0, 'done': []}
    def change():
        m = st['n']; st['n'] += 1
        for x in todo:
            at, q, op, new = x
            if any(x is y for y in st['done']) or not (at == m): continue
            st['done'].append(x)
            f = wc + q
            h.cover('edited')
            if h.isdir(f): h.rmtree(f)
            if op == 'edit':
                if timed: lib.edit(h, f, new, past=times.get(q, ()))
                else: h.write(f, new)
            elif op == 'back': h.write(f, base[q] if q in base else mine.get(q, new))
            else:
                if h.isfile(f): h.rm(f)
                if op == 'dir': h.write(f + '/y', new)
    if when == 'request': c.hook = lambda action, headers: change()
    else: h.world.read_hook = lambda pr, path: change() if path.startswith(wc) and '/.bvn' not in path else None
    r = c.commit()
    c.hook = None; h.world.read_hook = None
    h.assume(len(st['done']) == n)
    local = c.files(); head = s.files(); status = c.local_changes()
    if s.head() == v1:
        h.check(not r.ok, 'a commit reports success but publishes nothing')
    else:
        h.check(r.ok, 'a commit fails although it was made: ' + r.text())
        h.cover('committed')
    for q in sorted(set(local) | set(head)):
        if q in local and q in head and local[q] == head[q]:
            if any(y[1] == q and y[2] == 'edit' for y in todo): h.cover('published')
            continue
        want = 'deleted' if q not in local else ('new', 'changed') if q not in head else 'changed'
        h.check(q in status and status[q] in want, 'a file that differs from the published version is not reported as changed')
        h.cover('reported')
    # a later update never silently overwrites it
    q = todo[0][1]
    put = {q: h.lit(30)} if not any(p.startswith(q + '/') for p in head) else {q + '/y': h.lit(30)}
    other = lib.Client(h, s, wc='/other', addr='10.0.0.2')
    h.check(other.update().ok, 'an update fails')
    for p in put:
        if h.isfile(other.wc + p.rpartition('/')[0]): h.rm(other.wc + p.rpartition('/')[0])
        h.write(other.wc + p, put[p])
    h.check(other.commit().ok, 'a commit of another user fails')
    c.update(inputs=['client'] * 2)
    now = c.files()
    for p in local:
        if p not in head or not (head[p] == local[p]):
            h.check(p in now and now[p] == local[p], 'an update overwrites what was edited while a commit was running')
            h.cover('kept')
