"""C28: verification passes exactly on intact repositories."""
import checks.lib as lib
BOUNDS = {'quick': 'histories of one to three versions over nested directories with shared trees and symbolic contents; any one or two stored objects lost, or any one altered to any other content, '
                   'cut short, lengthened or exchanged with another; a content of up to 200 KB altered at any place; the head lost or pointing at nothing; unfinished commits left '
                   'by a crash at any step of an upload or of finishing, also of the first commit ever; the result of the call and the report of the command over two repositories',
          'thorough': 'three lost objects, contents of up to 2 MB'}
OUTSIDE = ['verification while a commit is being rolled back', 'whether unreachable objects are reported']
BUDGET = {'quick': 240, 'thorough': 850}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='lost', fn='lost', params=dict(n=2 if q else 3), covers=['commit', 'tree', 'file', 'intact']),
            dict(name='altered', fn='altered', params=dict(), covers=['commit', 'tree', 'file', 'exchanged']),
            dict(name='large', fn='large', params=dict(mb=200000 if q else 2000000), covers=['late', 'short']),
            dict(name='head', fn='head', params=dict(), covers=['lost', 'dangling']),
            dict(name='unfinished', fn='unfinished', params=dict(), covers=['first', 'later', 'finishing']),
            dict(name='command', fn='command', params=dict(), covers=['first', 'second', 'none'])]

def build(h, s, n=3, sym=True):
    c = [h.content('c%d' % i, 4) if sym else h.lit(i) for i in range(3)]
    vs = [s.version({'/a': c[0], '/d/b': c[1], '/d/e/f': c[2]})]
    if n > 1: vs.append(s.version({'/a': c[1]}))
    if n > 2: vs.append(s.version({'/g/f': c[2], '/g/h': h.lit(8)}, delete=['/d/b']))
    return vs

def objects(h, s):
    return {q: d for q, d in h.tree(s.path()).items() if q.startswith('/index/') or q.startswith('/files/')}

def kind(d):
    """What kind of object this is; index objects are concrete except where they name symbolic hashes."""
    return d

def verify(h, s, repo='repo'):
    P, vs = s.store(repo)
    r = P.attempt(vs.verify_fs)
    P.end()
    h.check(r.ok, 'verification dies instead of reporting: ' + r.text())
    valid, issues = r.value
    h.check((len(issues) == 0) == bool(valid), 'the verdict does not match the issues reported')
    return valid

def known(h, s, vs):
    """Object paths by kind, from the history itself."""
    P, st = s.store('repo', 'reader')
    cs, ts, fs = [], [], []
    at = lambda x: x[:2] + '/' + x[2:]
    def tree(t):
        if '/index/' + at(t) not in ts: ts.append('/index/' + at(t))
        o = P.run(st.read_tree_index_object, t)
        for f in o['files'].values():
            if '/files/' + at(f['hash']) not in fs: fs.append('/files/' + at(f['hash']))
        for d in o['dirs'].values(): tree(d)
    for v in vs:
        cs.append('/index/' + at(v)); tree(P.run(st.read_commit_index_object, v)['tree_root'])
    P.end()
    return {'commit': cs, 'tree': ts, 'file': fs}

def target(h, name, ks):
    k = h.pick(name, list(ks))
    return k, h.pick(name + '_' + k, ks[k])

def lost(h, n):
    s = lib.Server(h)
    vs = build(h, s)
    ks = known(h, s, vs)
    h.check(verify(h, s) is True, 'an intact repository is not reported valid')
    h.cover('intact')
    for i in range(n):
        if i and not h.flag('more'): break
        k, q = target(h, 'lost', ks)
        h.assume(h.isfile(s.path() + q))
        h.rm(s.path() + q)
        h.cover(k)
    h.check(not verify(h, s), 'a repository with a missing object is reported valid')

def altered(h):
    s = lib.Server(h)
    vs = build(h, s)
    ks = known(h, s, vs)
    k, q = target(h, 'altered', ks)
    h.cover(k)
    old = h.read(s.path() + q)
    how = h.pick('how', ['other', 'empty', 'cut', 'longer', 'exchanged', 'unreachable'])
    if how == 'other': new = h.content('new', 6, (0, 300))
    elif how == 'empty': new = b''
    elif how == 'cut': new = old[:len(old) - 1]
    elif how == 'longer': new = old + b'x'
    elif how == 'exchanged':
        k2, q2 = target(h, 'with', ks)
        new = h.read(s.path() + q2); h.cover('exchanged')
        h.assume(new != old)
        h.write(s.path() + q2, old)
    else:
        # stored, well named, but reached by nothing: its alteration counts as well
        c = h.lit(40)
        x = h.sha(c)
        q = '/files/' + x[:2] + '/' + x[2:]
        h.mkdirs(s.path() + '/files/' + x[:2]); old = c; new = h.lit(41)
    h.assume(new != old)
    h.write(s.path() + q, new)
    h.check(not verify(h, s), 'a repository with an altered object is reported valid')

def large(h, mb):
    s = lib.Server(h)
    a = h.content('start', 2, (0, mb)); b = h.content('rest', 2, (1, mb))
    s.version({'/a': a + b})
    h.check(verify(h, s) is True, 'an intact repository is not reported valid')
    if h.flag('short'): new = a; h.cover('short')
    else: new = a + h.content('other', 3, (1, mb))
    h.assume(new != a + b)
    if len(a) > 100000: h.cover('late')
    q = h.sha(a + b)
    h.write(s.path() + '/files/' + q[:2] + '/' + q[2:], new)
    h.check(not verify(h, s), 'a repository with an altered content is reported valid')

def head(h):
    s = lib.Server(h)
    vs = build(h, s, sym=False)
    if h.flag('lost'): h.rm(s.path() + '/head'); h.cover('lost')
    else: h.write(s.path() + '/head', h.sha(h.lit(40)).encode('utf8')); h.cover('dangling')
    h.check(not verify(h, s), 'a repository that lost its head is reported valid')

def unfinished(h):
    """A crash anywhere in a commit leaves an undamaged repository."""
    s = lib.Server(h)
    first = h.flag('first')
    if not first: build(h, s, h.int('versions', 1, 2))
    P, vs = s.store()
    h.arm(P)
    def go():
        vs.begin('u', 'ip', 't')
        for q, c in (('/a', h.lit(20)), ('/n/x', h.lit(1))):
            vs_put(vs, q, c)
        if not first: vs.fs_delete([{'path': '/d/e/f'}])
        vs.commit('m', 'u')
    def vs_put(vs, q, c):
        h.write(s.path() + '/up', c)
        vs.fs_put_from_file(s.path() + '/up', {'path': q})
    r = P.attempt(go)
    dead = h.crashed(P)
    h.disarm(); P.end()
    if not dead: h.check(r.ok, 'no commit: ' + r.text())
    h.cover('first' if first else 'later')
    if dead and any(q.startswith('/index/') and d not in () for q, d in objects(h, s).items()): h.cover('finishing')
    h.check(verify(h, s) is True, 'an undamaged repository with an unfinished commit is not reported valid')

def command(h):
    """The report of the command, over several repositories."""
    s = lib.Server(h, repos=['r1', 'r2'])
    bad = h.pick('bad', ['none', 'first', 'second', 'both'])
    for r in s.repos:
        v = s.version({'/a': h.lit(1), '/d/b': h.lit(2)}, repo=r)
        v = s.version({'/d/b': h.lit(3)}, repo=r)
        if bad == 'both' or bad == ('first' if r == 'r1' else 'second'):
            q = h.pick('what', ['/index/' + v[:2] + '/' + v[2:], '/files/' + h.sha(h.lit(2))[:2] + '/' + h.sha(h.lit(2))[2:]])
            if h.flag('lost'): h.rm(s.path(r) + q)
            else: h.write(s.path(r) + q, h.lit(9))
    h.cover(bad)
    del h.world.out[:]
    r, P = lib.admin(h, {r: {'path': s.path(r)} for r in s.repos}, 'verify')
    h.check(r.ok, 'the command dies: ' + r.text())
    out = '\n'.join(' '.join(str(y) for y in x) for x in h.world.out)
    parts = out.split('Results for: ')[1:]
    h.check(len(parts) == 2, 'a repository has no result')
    for q in parts:
        name = q.split('\n')[0].strip()
        damaged = bad == 'both' or bad == ('first' if name == 'r1' else 'second')
        h.check(('No issues' in q) == (not damaged), 'the report of a repository is wrong')
