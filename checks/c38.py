"""C38: the commands that only report tell the truth and change nothing."""
import json, re
import checks.lib as lib, checks.wc as wc
BOUNDS = {'quick': 'three versions (the held one in the middle, or none, or the head) over five paths in nested directories with contents that may be equal; every combination of kept, changed (any modification time), deleted '
                   'and new for three local files, ignore and pull-ignore filters; status, list-ignored-files, list-versions, list-files and list-changes with every combination of their options and any version of '
                   'the history, an unknown version or an object of another kind, run in the top directory or a subdirectory, with and without a commit of another user in progress; names of one or two '
                   'arbitrary characters (no backslash, no control characters); messages of the commits',
          'thorough': 'names of up to three characters, four local files'}
BUDGET = {'quick': 300, 'thorough': 850}
CHARS = ((0x20, 0x2e), (0x30, 0x5b), (0x5d, 0x7e), (0xa1, 0xd7ff), (0xe000, 0x10ffff))

def plan(tier):
    q = tier == 'quick'
    return [dict(name='status', fn='status', params=dict(paths=['/a', '/d/x', '/n'] if q else ['/a', '/d/x', '/n', '/d/e/z']), covers=['new', 'changed', 'deleted', 'nothing', 'ignored']),
            dict(name='names', fn='names', params=dict(n=[1, 2] if q else [1, 2, 3]), covers=['listed']),
            dict(name='remote', fn='remote', params=dict(), covers=['files', 'changes', 'only-ignored', 'refused', 'none']),
            dict(name='versions', fn='versions', params=dict(), covers=['listed', 'none'])]

def said(h):
    """The lines of the output."""
    out = []
    for args in h.world.out:
        l = ''
        for a in args: l = l + a if l != '' else a
        if isinstance(l, bytes): l = l.decode('utf8')
        if isinstance(l, str): out.extend(re.sub('\x1b\\[[0-9;]*m', '', l).split('\n'))
        else: out.append(l)
    del h.world.out[:]
    return out

def listed(lines, paths):
    """{path: what stands before it on its line}; every path is at the end of its line, the longest candidate counts."""
    out = {}
    for l in lines:
        if not isinstance(l, str): continue
        for p in sorted(paths, key=len, reverse=True):
            if l.rstrip(' ').endswith(p):
                assert p not in out, 'a path is listed twice'
                out[p] = l.rstrip(' ')[:-len(p)].strip(' :').lower(); break
    return out

def mentions(lines):
    return [l for l in lines if isinstance(l, str) and re.search('(^|[ :])/', l)]

def state(h, c):
    s = c.srv
    man = c.manifest()
    return (h.tree(c.wc, ('/.bvn/',)), sorted(d for d in h.dirs(c.wc) if not d.startswith('/.bvn')), man, h.tree(s.path(), ('/server_transient.db', '/lock')), s.history())

def unchanged(h, c, before, cmd):
    now = state(h, c)
    h.check(lib.same(now[0], before[0]) and now[1] == before[1], cmd + ' changes the user\'s files')
    h.check(now[2] == before[2], cmd + ' changes the manifest')
    h.check(lib.same(now[3], before[3]) and now[4] == before[4], cmd + ' changes the repository')

def status(h, paths):
    base = {'/a': h.lit(1), '/d/x': h.lit(2), '/k': h.lit(3), '/d/e/z': h.lit(4), '/i.o': h.lit(5)}
    w = wc.Copy(h, base, timed=True)
    flt = h.pick('filters', [None, b'*.o\n', b'/d/*\n*.o'])
    pull = h.pick('pull', [None, b'/p/*\n'])
    if flt is not None: h.write(w.c.wc + '/.bvn_ignore', flt)
    if pull is not None: h.write(w.c.wc + '/.bvn_pull_ignore', pull)
    if flt: h.write(w.c.wc + '/j.o', h.lit(6)); h.cover('ignored')
    if pull: h.write(w.c.wc + '/p/q', h.lit(7))
    ign = lambda q: (flt is not None and (q.endswith('.o') or (b'/d/' in flt and q.startswith('/d/')))) or (pull is not None and q.startswith('/p/'))
    want = {}
    for i, q in enumerate(paths):
        x = h.pick('local' + q, ['keep', 'edit', 'delete'] if q in base else ['keep', 'edit'])
        if x == 'edit': w.write(q, h.lit(20 + i))
        elif x == 'delete': w.rm(q)
        if x == 'edit': want[q] = 'changed' if q in base else 'new'
        elif x == 'delete': want[q] = 'deleted'
    for q in base:
        if ign(q): want[q] = 'deleted'         # a tracked file that is ignored now counts as deleted
    want = {q: v for q, v in want.items() if not ign(q) or q in base}
    if flt: want['/.bvn_ignore'] = 'new'
    if w.c.local_changes() != want: h.fail('the reported changes are not the changes')
    cwd = h.pick('cwd', ['', '/d']) if h.isdir(w.c.wc + '/d') else ''
    before = state(h, w.c)
    del h.world.out[:]
    n = w.s.nconn
    r = w.c.run('status', cwd=cwd)
    h.check(r.ok, 'status fails: ' + r.text())
    lines = said(h)
    uni = set(base) | set(paths) | {'/j.o', '/p/q', '/.bvn_ignore', '/.bvn_pull_ignore'}
    got = listed(lines, uni)
    h.check(sorted(got) == sorted(want), 'status does not list exactly the changed files')
    for q in want:
        h.check(got[q].startswith(want[q]), 'status gives a wrong kind of change'); h.cover(want[q])
    h.check(len(mentions(lines)) == len(want), 'status lists something else')
    if not want: h.cover('nothing')
    unchanged(h, w.c, before, 'status')
    # list-ignored-files: what is there and matches a filter
    del h.world.out[:]
    r = w.c.run('list-ignored-files', cwd=cwd)
    h.check(r.ok, 'list-ignored-files fails: ' + r.text())
    lines = said(h)
    there = set(h.tree(w.c.wc, ('/.bvn/',)))
    got = listed(lines, uni)
    h.check(sorted(got) == sorted([q for q in there if ign(q)] + (['/.bvn_pull_ignore'] if pull is not None else [])), 'list-ignored-files does not list exactly the ignored files')
    unchanged(h, w.c, before, 'list-ignored-files')

def names(h, n):
    base = {'/a': h.lit(1)}
    w = wc.Copy(h, base)
    q = '/' + h.text('name', n, CHARS)
    h.assume(q != '/.' and q != '/..' and q != '/a')
    if h.flag('dir'): q = '/d' + q
    x = h.pick('local', ['new', 'changed', 'deleted'])
    w.c.write(q, h.lit(2))
    if x != 'new':
        r = w.c.commit()
        h.check(r.ok, 'a commit fails: ' + r.text())
        w.c.rm(q)
        if x == 'changed': h.advance(5); w.c.write(q, h.lit(3))
    del h.world.out[:]
    r = w.c.run('status')
    h.check(r.ok, 'status fails: ' + r.text())
    hit = [l for l in said(h) if l != '']
    h.check(len(hit) == 1 and hit[0].endswith(q) and hit[0].startswith(x), 'status does not list the changed file')
    h.cover('listed')
    if x == 'changed':
        del h.world.out[:]
        r = w.c.run('list-files')
        h.check(r.ok, 'list-files fails: ' + r.text())
        hit = [l for l in said(h) if l != '' and l.endswith(q)]
        h.check(len(hit) == 1, 'list-files does not list a file of the version')

def remote(h):
    s = lib.Server(h)
    have = h.pick('have', ['middle', 'none', 'head'])
    c = lib.Client(h, s)
    versions = []; same = h.flag('same')
    a = {'/a': h.lit(1), '/d/x': h.lit(1 if same else 2), '/d/e/z': h.lit(3), '/p/q': h.lit(4)}
    hist = [(a, []), ({'/a': h.lit(5), '/n': h.lit(1 if same else 6)}, ['/d/x']), ({'/p/r': h.lit(4 if same else 7)}, ['/d/e/z'])]
    files = {}; known = {}
    for i, (put, rm) in enumerate(hist):
        v = s.version(put, rm, msg='version %d' % i)
        ch = {q: 'changed' if q in files else 'new' for q in put}; ch.update({q: 'deleted' for q in rm})
        files = dict(files, **{q: 1 for q in put})
        for q in rm: files.pop(q)
        known[v] = (set(files), ch); versions.append(v)
        if have == 'middle' and i == 1 or have == 'head' and i == 2:
            s.start(); h.check(c.update().ok, 'an update fails')
    s.start()
    held = {'middle': versions[1], 'none': None, 'head': versions[2]}[have]
    if h.flag('pull'): h.write(c.wc + '/.bvn_pull_ignore', b'/p/*\n'); pull = True
    else: pull = False
    busy = h.flag('busy')
    if busy:
        k = s.connect('10.0.0.7'); t = s.session(k)
        hd, _ = k.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': versions[2]})
        h.check(hd['status'] == 'ok', 'a commit cannot be begun')
        hd, _ = k.call('push_file', {'session_token': t, 'repository': 'repo', 'path': '/staged'}, h.lit(40))
        h.check(hd['status'] == 'ok', 'an upload is refused')
    cmd = h.pick('command', ['list-files', 'list-changes'])
    opt = h.pick('option', ['held', 'head', 'first', 'second', 'unknown', 'tree', 'both'])
    only = cmd == 'list-files' and h.flag('only')
    args = {'held': [], 'head': ['-h'], 'first': ['--v', versions[0]], 'second': ['--v', versions[1]], 'unknown': ['--v', '0' * 64], 'tree': None, 'both': ['-h', '--v', versions[0]]}[opt]
    if opt == 'tree':
        P, vs = s.store(name='reader')
        args = ['--v', P.run(vs.read_commit_index_object, versions[0])['tree_root']]; P.end()
    if only: args = ['-i'] + args if h.flag('order') else args + ['-i']
    v = {'held': held, 'head': versions[2], 'first': versions[0], 'second': versions[1]}.get(opt)
    before = state(h, c)
    del h.world.out[:]
    r = c.run(cmd, *args, cwd=h.pick('cwd', ['', '/d']) if h.isdir(c.wc + '/d') else '')
    lines = said(h)
    uni = {'/a', '/d/x', '/d/e/z', '/p/q', '/n', '/p/r', '/staged'}
    got = listed(lines, uni)
    if v is None:
        if have == 'none' and opt == 'held': h.cover('none')
        else: h.cover('refused')
        h.check(not r.ok or opt == 'held', 'a version that does not exist is listed')
        h.check(got == {}, 'files of a version that does not exist are listed')
    else:
        h.check(r.ok, cmd + ' fails: ' + r.text())
        want = known[v]
        if cmd == 'list-files':
            h.cover('files')
            w = want[0]
            if only: w = {q for q in w if pull and q.startswith('/p/')}; h.cover('only-ignored')
            h.check(set(got) == w, 'list-files does not list exactly the files of the version')
        else:
            h.cover('changes')
            h.check(set(got) == set(want[1]), 'list-changes does not list exactly the changes of the version')
            for q in want[1]: h.check(got[q].startswith(want[1][q]), 'list-changes gives a wrong kind of change')
        h.check(len([l for l in mentions(lines)]) == len(got), cmd + ' lists something else')
        h.check(any(isinstance(l, str) and v in l for l in lines), cmd + ' does not name the version')
    unchanged(h, c, before, cmd)
    if busy:
        hd, _ = k.call('commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'commit_message': 'm', 'mode': 'commit'})
        h.check(hd['status'] == 'ok' and '/staged' in s.files(), 'a listing breaks the commit in progress')

def versions(h):
    s = lib.Server(h, users={'u': {'public_key': lib.PUB, 'uses_repositories': ['repo']}})
    n = h.choose('versions', 4)
    ids = []
    for i in range(n):
        ids.append(s.version({'/f': h.lit(i)}, msg='message number %d' % i, by='author%d' % i))
        h.advance(100)
    s.start()
    c = lib.Client(h, s)
    if n and h.flag('update'): h.check(c.update().ok, 'an update fails')
    before = state(h, c)
    del h.world.out[:]
    r = c.run('list-versions')
    h.check(r.ok, 'list-versions fails: ' + r.text())
    text = '\n'.join(said(h))
    at = []
    for i, v in enumerate(ids):
        h.check(text.count(v) == 1, 'list-versions does not name every version once')
        at.append(text.index(v))
    h.check(at == sorted(at), 'the versions are not in the order they were made')
    for i in range(n):
        part = text[at[i]:at[i + 1] if i + 1 < n else len(text)]
        h.check('message number %d' % i in part and 'author%d' % i in part, 'a version is listed with another message or author')
        h.cover('listed')
    if n == 0: h.cover('none')
    unchanged(h, c, before, 'list-versions')
