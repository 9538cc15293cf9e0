"""C26: a commit marked as backed up is completely in the backup."""
import checks.lib as lib, checks.remote as remote
BOUNDS = {'quick': 'histories of up to three versions with shared directories, symbolic contents (equal or not) and an empty file; a run interrupted before any step of the remote '
                   'by a crash, an input/output error or an error of the remote, up to two such runs, with a version added in between or during a run; listings of the remote in pages of '
                   'one to three; up to three repositories, backed up or not, empty or not, with names that begin alike',
          'thorough': 'two interrupted runs over larger histories; four versions'}
ASSUMES = ['the remote stores an object completely or not at all']
BUDGET = {'quick': 240, 'thorough': 850}

def plan(tier):
    q = tier == 'quick'
    more = [] if q else [dict(name='wide', fn='interrupted', params=dict(runs=2, sym=False, wide=True), covers=['crash', 'marked', 'grown'])]
    return more + [dict(name='interrupted', fn='interrupted', params=dict(runs=1, sym=True), covers=['crash', 'error', 'refused']),
            dict(name='twice', fn='interrupted', params=dict(runs=2, sym=False), covers=['crash', 'marked', 'grown']),
            dict(name='during', fn='during', params=dict(), covers=['grown']),
            dict(name='paging', fn='paging', params=dict(n=3 if q else 4), covers=['several']),
            dict(name='repositories', fn='repositories', params=dict(), covers=['not', 'empty'])]

def build(h, s, n, sym=True, repo='repo', tag=''):
    c = [h.content('c%d%s' % (i, tag), 3, (1, 50)) if sym else h.lit(i) for i in range(3)]
    s.version({'/a': c[0], '/d/b': c[1], '/d/none': b''}, repo=repo)
    if n > 1: s.version({'/a': c[1], '/e/b': c[1], '/e/none': b''}, repo=repo)
    if n > 2: s.version({'/g': c[2]}, delete=['/d/b'], repo=repo)
    if n > 3: s.version({'/g': c[0], '/d/b': h.lit(15)}, repo=repo)

def there(h, s, keys, need, repo):
    for k in need:
        if not k.endswith(remote.EMPTY[2:]): h.check(repo + '/' + k in keys, 'a commit is marked as backed up, but some of it is not on the remote')

def marked(h, s, repo='repo'):
    """Every marked commit is complete; returns the marked ones."""
    keys = h.world.s3.objects
    out = []
    for v, need in remote.needs(h, s, repo).items():
        if repo + '/commits/' + v in keys:
            out.append(v)
            there(h, s, keys, need, repo)
    return out

def complete(h, s, repo='repo'):
    """After a completed run everything is there."""
    all_ = remote.needs(h, s, repo)
    h.check(len(marked(h, s, repo)) == len(all_), 'a backup run ended without marking every commit')
    h.check((repo + '/head' in h.world.s3.objects) == (len(all_) > 0), 'the head is not in the backup')

def once(h):
    """No object of a repository was sent twice."""
    p = [k for k in h.world.s3.puts if '/index/' in k or '/files/' in k]
    h.check(len(p) == len(set(p)), 'an object that is on the remote was sent again')

class Failed(Exception): pass

def interrupted(h, runs, sym, wide=False):
    s = lib.Server(h)
    if sym or wide: build(h, s, 2, sym)
    else:
        s.version({'/a': h.lit(1), '/d/none': b''})
        if h.flag('two'): s.version({'/d/b': h.lit(1)})
    for i in range(runs):
        how = h.pick('how', ['crash', 'error', 'refused']) if runs == 1 else 'crash' if i else h.pick('how', ['crash', 'error'])
        r, P = None, None
        if how == 'crash':
            P = h.proc('tool')
            m = P.mod('bversion.repo_manager')
            P.run(m.init, dict({'repositories': remote.details(s)}, **remote.extra()))
            h.world.argv[:] = ['bvn_repo', 'backup']
            h.arm(P, 'crash%d' % i)
            r = P.attempt(m.run)
            dead = h.crashed(P)
            h.disarm(); P.end()
        else:
            k = h.int('at%d' % i, 0, 120)
            seen = [0]; hit = []
            def fault(proc, kind, detail):
                if not kind.startswith('s3') or kind == 's3abort' or hit: return
                seen[0] += 1
                if k == seen[0] - 1:
                    hit.append(1)
                    if how == 'error': raise OSError(5, 'connection lost')
                    raise Failed('the remote refuses')
            h.world.fault = fault
            r = remote.tool(h, s, 'backup')
            h.world.fault = None
            dead = not r.ok
            if hit: h.check(not r.ok, 'a backup run whose upload failed reports success')
            else: h.check(r.ok, 'a backup run fails: ' + r.text())
        if dead: h.cover(how)
        if dead and marked(h, s): h.cover('marked')
        if not dead: complete(h, s)
        if i == 0:
            if h.flag('grow'): s.version({'/a': h.lit(17), '/d/none': b''}); h.cover('grown')
    r = remote.tool(h, s, 'backup')
    h.check(r.ok, 'a backup run fails: ' + r.text())
    complete(h, s)
    once(h)
    # and nothing is left to do
    before = len([k for k in h.world.s3.puts if '/' in k])
    r = remote.tool(h, s, 'backup')
    h.check(r.ok, 'a backup run fails: ' + r.text())
    h.check(len([k for k in h.world.s3.puts if '/' in k]) == before, 'a complete backup is sent again')
    complete(h, s)
    rs = remote.tool(h, s, 'restore')
    h.check(rs.ok, 'what was backed up cannot be restored: ' + rs.text())
    h.check(h.read(s.path() + '_restore/head') == h.read(s.path() + '/head'), 'the head of the backup is not the head')

def during(h):
    """A version is added while a run is going on."""
    s = lib.Server(h)
    build(h, s, 2, sym=False)
    k = h.int('at', 0, 60)
    seen = [0]; got = []
    def obs(proc, kind, detail):
        if got or not kind.startswith('s3'): return
        seen[0] += 1
        if k == seen[0] - 1:
            got.append(1)
            s.version({'/a': h.lit(17), '/n/x': h.lit(18)})
            h.cover('grown')
    h.world.observers.append(obs)
    r = remote.tool(h, s, 'backup')
    h.world.observers.remove(obs)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    m = marked(h, s)
    h.check(len(m) >= 2, 'a backup run ended without marking every commit')
    r = remote.tool(h, s, 'backup')
    h.check(r.ok, 'a backup run fails: ' + r.text())
    complete(h, s); once(h)

def paging(h, n):
    """The remote lists a few objects at a time."""
    s = lib.Server(h)
    h.world.s3.page = h.pick('page', [1, 2, 3])
    build(h, s, n - 1)
    r = remote.tool(h, s, 'backup')
    h.check(r.ok, 'a backup run fails: ' + r.text())
    complete(h, s)
    if h.flag('only a deletion'): s.version({}, ['/e/b'])
    else: s.version({'/g': h.content('d', 3, (1, 50)), '/g2': h.alike(h.lit(15)), '/g3': h.lit(15)})
    r = remote.tool(h, s, 'backup')
    h.check(r.ok, 'a backup run fails: ' + r.text())
    complete(h, s); once(h)
    before = len([k for k in h.world.s3.puts if '/' in k])
    r = remote.tool(h, s, 'backup')
    h.check(r.ok and len([k for k in h.world.s3.puts if '/' in k]) == before, 'a complete backup is sent again')
    if len(h.world.s3.objects) > 3: h.cover('several')

def repositories(h):
    names = ['r', 'r2', 'rr/commits'] if h.flag('odd') else ['b', 'a', 'ab']
    s = lib.Server(h, repos=names)
    what = {}; over = {}
    for r in names:
        w = what[r] = h.pick('what', ['backup', 'not', 'absent', 'empty'])
        if w != 'empty': build(h, s, 2, sym=False, repo=r)
        if w == 'not': over[r] = {'backup': False}
        h.cover('empty' if w == 'empty' else 'not' if w in ('not', 'absent') else 'backup')
    d = remote.details(s, **over)
    for r in names:
        if what[r] == 'absent': del d[r]['backup']
    r = remote.tool(h, s, 'backup', d)
    h.check(r.ok, 'a backup run fails: ' + r.text())
    for r in names:
        mine = [k for k in h.world.s3.objects if k.startswith(r + '/') and not any(len(q) > len(r) and k.startswith(q + '/') for q in names)]
        if what[r] in ('not', 'absent'): h.check(mine == [], 'a repository that is not to be backed up was')
        else: complete(h, s, r)
    once(h)
