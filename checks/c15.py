"""C15: a resumed commit publishes the working copy as it is now."""
import checks.lib as lib
BOUNDS = {'quick': 'a commit of a changed, a deleted and a new file, of which one has any of the histories (kept, changed, deleted, created) x (kept, edited, put back with or without its old '
                   'time, deleted, ignored, replaced by a directory, directory replaced by a file) before and after the interruption; connection or client lost before any request or after '
                   'the last, server dead before any of its steps, symbolic contents; also pull-ignored with the command; then the commit is made again from this or another working copy of the user',
          'thorough': 'two interruptions, two files with any history'}
BUDGET = {'quick': 300, 'thorough': 850}
BASE = {'/a': 1, '/d/x': 2, '/k': 3, '/e': 4}

def plan(tier):
    q = tier == 'quick'
    c = ['resumed', 'interrupted']
    return [dict(name='tracked', fn='histories', params=dict(paths=['/a'], times=1 if q else 2), covers=c),
            dict(name='new', fn='histories', params=dict(paths=['/n'], times=1 if q else 2), covers=c),
            dict(name='directory', fn='histories', params=dict(paths=['/d/x'], times=1), covers=c),
            dict(name='server', fn='server', params=dict(times=1 if q else 2), covers=c),
            dict(name='dropped', fn='dropped', params=dict(), covers=c + ['removed', 'left']),
            dict(name='other', fn='other', params=dict(deep=not q), covers=c)] + \
           ([] if q else [dict(name='pair', fn='histories', params=dict(paths=['/a', '/n'], times=1), covers=c)])

class Work:
    """The working copy, the times its tracked files had, and what is ignored."""
    def __init__(self, h):
        self.h = h
        self.s = lib.Server(h)
        self.base = {q: h.lit(i) for q, i in BASE.items()}
        self.v1 = self.s.version(self.base); self.s.start()
        self.c = self.copy('/wc')
        self.times = {q: h.mtime(self.c.wc + q) for q in self.base}
        self.ignored = set(); self.pulled = False
    def copy(self, name):
        c = lib.Client(self.h, self.s, wc=name)
        self.h.check(c.update().ok, 'an update fails')
        return c
    def ignore(self, q, pull=False):
        h = self.h; f = self.c.wc + ('/.bvn_pull_ignore' if pull else '/.bvn_ignore')
        h.write(f, (h.read(f) if h.isfile(f) else b'') + q.encode() + b'\n')
        self.ignored.add(q); self.pulled = self.pulled or pull
    def local(self, c=None):
        c = c or self.c
        out = c.files()
        if self.h.isfile(c.wc + '/.bvn_ignore'): out['/.bvn_ignore'] = self.h.read(c.wc + '/.bvn_ignore')
        return {q: out[q] for q in out if c is not self.c or q not in self.ignored}
    def published(self, c, r, what):
        h = self.h
        h.check(r.ok, 'a commit made again fails: ' + r.text())
        want = self.local(c)
        h.check(lib.same(self.s.files(), want), 'a commit made again ' + what + ' does not publish exactly the working copy')
        h.check(c.local_changes() == {}, 'after a commit made again local changes remain')

def first(h, w, q):
    """What was done to q before the interrupted commit."""
    op = h.pick('before' + q, ['change', 'delete', 'keep', 'dir'] if q in w.base else ['new', 'dir'])
    f = w.c.wc + q
    if op in ('change', 'new'): h.write(f, h.content('c' + q, 3))
    elif op == 'delete': h.rm(f)
    elif op == 'dir':
        if q in w.base: h.rm(f)
        h.write(f + '/y', h.content('y' + q, 3))

def second(h, w, q):
    """What was done to q since."""
    f = w.c.wc + q
    there = h.isfile(f)
    op = h.pick('since' + q, ['keep', 'edit', 'back', 'touched', 'gone', 'ignored', 'dir'] + (['pull-ignored'] if q not in w.base else []) + (['parent'] if q == '/d/x' else []))
    if op in ('edit', 'back', 'touched', 'gone', 'dir', 'parent') and h.exists(f):
        if h.isdir(f): h.rmtree(f)
        elif op in ('gone', 'dir', 'parent'): h.rm(f)
    if op == 'edit': h.write(f, h.content('e' + q, 3))
    elif op in ('back', 'touched'):
        h.assume(q in w.base)
        h.write(f, w.base[q], w.times[q] if op == 'back' else None)
    elif op == 'ignored': w.ignore(q)
    elif op == 'pull-ignored': w.ignore(q, True)
    elif op == 'dir': h.write(f + '/z', h.content('z' + q, 3))
    elif op == 'parent': h.rmtree(w.c.wc + '/d'); h.write(w.c.wc + '/d', h.content('p', 3))

def cut(h, w, st):
    at = h.int('at', 0, 12); gone = h.flag('answered')
    st.update(n=0, hit=None)
    def hook(action, headers):
        n = st['n']; st['n'] += 1
        if at == n:
            st['hit'] = action
            if gone:       # the answer is lost, the server did it
                k = w.c.conns[-1]
                call = k.call
                def once(*a):
                    call(*a)
                    k.close(); raise lib.Closed('answer lost')
                k.call = once
            else: w.c.conns[-1].close()
    w.c.hook = hook

def histories(h, paths, times):
    w = Work(h)
    for q in paths: first(h, w, q)
    h.write(w.c.wc + '/k', h.content('k', 3)); h.rm(w.c.wc + '/e')
    st = {}
    for t in range(times):
        cut(h, w, st)
        r = w.c.commit()
        w.c.hook = None
        if st['hit'] is None: break
        h.cover('interrupted')
        for q in paths: second(h, w, q)
    if st['hit'] == 'commit' and w.s.head() != w.v1:
        # only the answer was lost: the user is told to update, and what was published is then a change on both sides
        r = w.c.commit()
        h.check(not r.ok or w.c.local_changes() == {}, 'a commit is made from an outdated revision')
        r = w.c.update(inputs=['client'] * 2)
        if w.c.manifest()[1] != w.s.head(): return          # something local is in the way of the published version
        if w.pulled: return                                  # published before it was pull-ignored, and left alone since (C23)
        r = w.c.commit()
        w.published(w.c, r, 'after its answer was lost')
        return
    r = w.c.commit()
    w.published(w.c, r, 'after an interruption')
    h.cover('resumed')

def server(h, times):
    """The server dies."""
    w = Work(h)
    h.write(w.c.wc + '/a', h.content('a', 2)); h.rm(w.c.wc + '/e'); h.write(w.c.wc + '/n', h.lit(11))
    for t in range(times):
        h.arm(w.s.P)
        r = w.c.commit()
        dead = h.crashed(w.s.P); h.disarm()
        if not dead: break
        h.cover('interrupted')
        w.s.start()
        op = h.pick('since', ['edit', 'back', 'gone', 'restore-e'])
        if op == 'edit': h.write(w.c.wc + '/n', h.lit(12))
        elif op == 'back': h.write(w.c.wc + '/a', w.base['/a'], w.times['/a'])
        elif op == 'gone': h.rm(w.c.wc + '/n'); break
        elif op == 'restore-e': h.write(w.c.wc + '/e', w.base['/e'], w.times['/e'])
    if w.s.head() != w.v1: return            # published; C14 and the above
    r = w.c.commit()
    w.published(w.c, r, 'after the server died')
    h.cover('resumed')

def dropped(h):
    """The pull-ignore command is used before the commit is made again."""
    w = Work(h)
    q = h.pick('path', ['/a', '/d/x', '/n'])
    h.write(w.c.wc + q, h.content('c', 3)); h.write(w.c.wc + '/k', h.lit(12))
    st = {}
    cut(h, w, st)
    w.c.commit()
    w.c.hook = None
    h.assume(st['hit'] is not None and w.s.head() == w.v1); h.cover('interrupted')
    how = h.pick('choice', ['delete', 'nothing'])
    r = w.c.run('pull-ignore', '-f', q, inputs=[how])
    h.check(r.ok, 'pull-ignore fails: ' + r.text())
    if q == '/n' and how == 'delete' and h.flag('rm') and h.isfile(w.c.wc + q): h.rm(w.c.wc + q)
    h.cover('left' if h.isfile(w.c.wc + q) else 'removed')
    r = w.c.commit()
    h.check(r.ok, 'a commit made again fails: ' + r.text())
    want = dict(w.base); want['/k'] = h.lit(12)
    h.check(lib.same(w.s.files(), want), 'a commit made again takes a file along that was pull-ignored since')
    h.check(w.c.local_changes() == {}, 'after a commit made again local changes remain')
    h.cover('resumed')

def other(h, deep):
    """The user continues in another working copy."""
    w = Work(h)
    c2 = w.copy('/wc2')
    for q in ['/a', '/d/x']:
        if q == '/d/x' and not deep: h.write(w.c.wc + q, h.lit(20)); continue
        op = h.pick('first' + q, ['keep', 'change', 'delete'])
        if op == 'change': h.write(w.c.wc + q, h.content('1' + q, 3))
        elif op == 'delete': h.rm(w.c.wc + q)
        op = h.pick('second' + q, ['keep', 'change', 'delete'])
        if op == 'change': lib.edit(h, c2.wc + q, h.content('2' + q, 3))
        elif op == 'delete': h.rm(c2.wc + q)
    h.write(w.c.wc + '/n', h.lit(21)); h.write(c2.wc + '/k', h.lit(22))
    if h.flag('same name'): h.write(c2.wc + '/n', h.lit(h.pick('n', [21, 23])))
    st = {}
    cut(h, w, st)
    w.c.commit()
    w.c.hook = None
    h.assume(st['hit'] is not None)
    h.cover('interrupted')
    h.assume(w.s.head() == w.v1)
    r = c2.commit()
    w.published(c2, r, 'from another working copy')
    h.cover('resumed')
