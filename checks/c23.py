"""C23: ignored files never travel."""
import fnmatch
import checks.lib as lib
BOUNDS = {'quick': 'ignore and pull-ignore filters (a pattern by suffix, by directory, a single path, a path with a character class, with a space, beyond ASCII; several at once) against files in three directories, '
                   'hidden and metadata files; local and server-side creation, change and deletion of matching and other files; plain and full updates, commits, revert, interrupted updates; '
                   'a name of up to three symbolic characters against every filter',
          'thorough': 'every combination; names of up to five characters'}
BUDGET = {'quick': 300, 'thorough': 850}
FILTERS = ['*.tmp', '/d/*', '/a', '/d/[xy]', '*/e/*', '/d/x?', '*', '/my *', '/n\u00e9.tmp']
LOCAL = ['/n', '/n.tmp', '/d/n', '/d/x1', '/g/e/f', '/g/.tmp', '/d/e.tmp/q', '/my notes', '/n\u00e9.tmp', '/my']
SERVER = ['/a', '/d/x', '/d/e/y', '/k', '/t.tmp']

def plan(tier):
    q = tier == 'quick'
    return [dict(name='ignore', fn='ignore', params=dict(), covers=['stays', 'travels']),
            dict(name='pull', fn='pull', params=dict(), covers=['left', 'pulled', 'committed']),
            dict(name='fresh', fn='fresh', params=dict(), covers=['left', 'pulled']),
            dict(name='meta', fn='meta', params=dict(), covers=['stays', 'travels']),
            dict(name='names', fn='names', params=dict(lens=[1, 2, 3] if q else [1, 2, 3, 4, 5]), covers=['stays', 'travels'])]

def hit(fs, q): return any(fnmatch.fnmatch(q, f) for f in fs)

def lines(fs): return ''.join(f + '\n' for f in fs).encode('utf8')

def start(h):
    s = lib.Server(h)
    base = {q: h.lit(i) for i, q in enumerate(SERVER)}
    s.version(base); s.start()
    c = lib.Client(h, s)
    return s, c, base

def watch(c, seen):
    """Every request that a client makes about a path."""
    def hook(action, headers):
        if action in ('push_file', 'pull_file'): seen.append((action, headers['path']))
    c.hook = hook

def ignore(h):
    s, c, base = start(h)
    h.check(c.update().ok, 'an update fails')
    fs = [h.pick('filter', FILTERS)]
    if h.flag('two'): fs.append('/zz*')
    h.assume(not any(hit(fs, q) for q in base))            # committed files that become ignored are deleted by the next commit (README)
    c.write('/.bvn_ignore', lines(fs))
    for i, q in enumerate(LOCAL): c.write(q, h.lit(30 + i))
    c.write('/zzz', h.lit(40))
    seen = []; watch(c, seen)
    how = h.pick('then', ['commit', 'update', 'server'])
    if how == 'server': s.version({'/k': h.lit(50), '/other': h.lit(51)}); s.start()
    before = c.files()
    if how != 'commit':
        h.check(c.update(h.flag('full')).ok, 'an update fails')
    for q in LOCAL: h.check(h.isfile(c.wc + q) and h.read(c.wc + q) == before[q], 'an update touches a local file')
    st = c.local_changes()
    for q in LOCAL + ['/zzz']: h.check((q in st) == (not hit(fs, q)), 'the status does not show exactly the files matching no filter')
    h.check(c.commit().ok, 'a commit fails')
    got = s.files()
    for q in LOCAL + ['/zzz']:
        if hit(fs, q):
            h.check(q not in got and not any(p == q for a, p in seen), 'a file matching an ignore filter is uploaded'); h.cover('stays')
        else:
            h.check(q in got and got[q] == h.read(c.wc + q), 'a file matching no filter is not committed'); h.cover('travels')
    for q in base: h.check(q in got, 'a commit deletes a file on the server')
    # their later changes and deletions stay local as well
    for q in LOCAL:
        if h.isfile(c.wc + q): h.rm(c.wc + q) if q == '/n' else c.write(q, h.lit(60))
    h.check(c.commit().ok, 'a commit fails')
    got = s.files()
    for q in LOCAL:
        if hit(fs, q): h.check(q not in got, 'a file matching an ignore filter is uploaded')
        elif q == '/n': h.check(q not in got, 'a deletion is not committed')

def pull(h):
    """Filters made with pull-ignore; then changes on both sides."""
    s, c, base = start(h)
    h.check(c.update().ok, 'an update fails')
    f = h.pick('filter', [f for f in FILTERS if f != '/d/x?'])
    drop = h.pick('choice', ['delete', 'nothing'])
    h.check(c.run('pull-ignore', f, inputs=[drop]).ok, 'pull-ignore fails')
    fs = [f]
    seen = []; watch(c, seen)
    sv = h.pick('server', ['change', 'delete', 'add', 'none'])
    if sv == 'change': s.version({q: h.lit(30 + i) for i, q in enumerate(SERVER)})
    elif sv == 'delete': s.version({'/left': h.lit(39)}, SERVER)
    elif sv == 'add': s.version({q: h.lit(40 + i) for i, q in enumerate(LOCAL)})
    s.start()
    lo = h.pick('local', ['none', 'write', 'remove'])
    if lo == 'write':
        for i, q in enumerate(SERVER):
            if hit(fs, q): c.write(q, h.lit(70 + i))
    elif lo == 'remove':
        for q in SERVER:
            if hit(fs, q) and h.isfile(c.wc + q): c.rm(q)
    before = c.files(); head = s.files()
    full = h.flag('full')
    r = c.update(full, inputs=['server'] * 2)
    h.check(r.ok, 'an update fails: ' + r.text())
    now = c.files()
    for q in set(head) | set(base) | set(before):
        if hit(fs, q):
            h.check((q in now) == (q in before) and (q not in now or now[q] == before[q]), 'an update touches a file matching a pull-ignore filter'); h.cover('left')
        else:
            h.check((q in now) == (q in head) and (q not in now or now[q] == head[q]), 'an update does not bring in a file matching no filter'); h.cover('pulled')
    for a, p in seen: h.check(not hit(fs, p), 'a file matching a pull-ignore filter travels')
    h.check(c.local_changes() == {}, 'after an update files matching a pull-ignore filter are reported as changed')
    # a commit of other files, and a revert
    c.write('/mine', h.lit(80))
    r = c.commit()
    h.check(r.ok, 'a commit fails: ' + r.text())
    got = s.files(); h.cover('committed')
    for q in head:
        if hit(fs, q): h.check(q in got and got[q] == head[q], 'a commit changes or deletes a file matching a pull-ignore filter on the server')
    h.check(('/mine' in got) == (not hit(fs, '/mine')), 'a commit does not publish exactly the files matching no filter')
    before = c.files()
    c.run('revert', '--all', inputs=['yes'])
    now = c.files()
    for q in set(now) | set(before):
        if hit(fs, q): h.check((q in now) == (q in before) and (q not in now or now[q] == before[q]), 'a revert touches a file matching a pull-ignore filter')
    for a, p in seen: h.check(not hit(fs, p), 'a file matching a pull-ignore filter travels')

def fresh(h):
    """A new working copy with filters from the start, whose first update may be interrupted."""
    s, c, base = start(h)
    fs = [h.pick('filter', FILTERS)]
    if h.flag('two'): fs.insert(0, '/k')
    if h.flag('blank'): fs.insert(0, '')
    h.write(c.wc + '/.bvn_pull_ignore', lines(fs) if h.flag('newline') else lines(fs)[:-1])
    seen = []; watch(c, seen)
    at = h.int('at', 0, 6)
    n = {'n': 0}
    log = c.hook
    def hook(action, headers):
        log(action, headers)
        m = n['n']; n['n'] += 1
        if at == m: c.conns[-1].close()
    c.hook = hook
    if h.flag('interrupted'): c.update()
    c.hook = log
    h.check(c.update(h.flag('full')).ok, 'an update fails')
    now = c.files()
    for q in base:
        if hit(fs, q): h.check(q not in now and ('pull_file', q) not in seen, 'a file matching a pull-ignore filter is downloaded'); h.cover('left')
        else: h.check(q in now and now[q] == base[q], 'a file matching no filter is not downloaded'); h.cover('pulled')
    h.check(c.local_changes() == {}, 'files matching a pull-ignore filter are reported as deleted')
    c.write('/mine', h.lit(80))
    h.check(c.commit().ok, 'a commit fails')
    got = s.files()
    for q in base: h.check(q in got and got[q] == base[q], 'a commit changes or deletes a file on the server')

META = ['/.bvn/x', '/.bvn/back/1_a', '/.bvn/tmp/tmp_1', '/.bvn/conflict_files/a', '/.bvn/conflict_resolution', '/.bvn_pull_ignore', '/.bvn/.bvn/y']
NOTMETA = ['/.bvnx', '/d/.bvn_pull_ignore', '/.bvn_ignore', '/x.bvn', '/.bvn_pull_ignore2', '/bvn/x']

def meta(h):
    s, c, base = start(h)
    h.check(c.update().ok, 'an update fails')
    for i, q in enumerate(META):
        if q != '/.bvn_pull_ignore': c.write(q, h.lit(30 + i))
    if h.flag('pull-ignore'): c.write('/.bvn_pull_ignore', b'/zz\n')
    for i, q in enumerate(NOTMETA): c.write(q, h.lit(40 + i) if q != '/.bvn_ignore' else b'/zz\n')
    h.rm(c.wc + '/.bvn/conflict_resolution') if h.flag('no resolution') else None
    h.check(c.commit().ok, 'a commit fails')
    got = s.files()
    for q in got: h.check(not (q.startswith('/.bvn/') or q == '/.bvn_pull_ignore'), 'metadata of the working copy is uploaded')
    h.cover('stays')
    for q in NOTMETA: h.check(q in got and got[q] == h.read(c.wc + q), 'a file matching no filter is not committed'); h.cover('travels')

def names(h, lens):
    """A symbolic name in the root or a directory, against the filters."""
    s, c, base = start(h)
    h.check(c.update().ok, 'an update fails')
    f = h.pick('filter', ['*.t', '/n/*', '/n/[xy]*', '/n/?', '/n/x', '*zz', '/nn', '/n/[!a]b'])
    name = h.text('name', lens, ((46, 46), (97, 98), (110, 110), (116, 116), (120, 122)))
    h.assume(name != '.' and name != '..')
    q = h.pick('in', ['/n/', '/']) + name
    for p in list(base) + ['/d', '/n', '/.bvn_ignore', '/.bvn']: h.assume(not (q == p))
    h.write(c.wc + '/.bvn_ignore', lines([f]))
    c.write(q, h.lit(30))
    ign = matches(q, f)
    st = c.local_changes()
    mine = [p for p in st if p != '/.bvn_ignore']
    if ign:
        h.check(len(mine) == 0, 'a file matching an ignore filter is reported as changed'); h.cover('stays')
    else:
        h.check(len(mine) == 1 and mine[0] == q, 'a file matching no filter is not reported as new'); h.cover('travels')

def matches(q, f):
    """What the filters of `names` mean, said without fnmatch."""
    if f == '*.t': return q[len(q) - 2:] == '.t'
    if f == '*zz': return q[len(q) - 2:] == 'zz'
    if f == '/nn': return q == '/nn'
    if q[:3] != '/n/': return False
    r = q[3:]
    if f == '/n/*': return True
    if f == '/n/?': return len(r) == 1
    if f == '/n/x': return r == 'x'
    if f == '/n/[xy]*': return r[:1] == 'x' or r[:1] == 'y'
    if f == '/n/[!a]b': return len(r) == 2 and r[:1] != 'a' and r[1:] == 'b'
