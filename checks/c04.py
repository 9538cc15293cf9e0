"""C04: a commit yields the parent version plus exactly its own changes."""
import checks.lib as lib
BOUNDS = {'quick': 'from a version of two files (one in a directory): any 3 uploads and deletions (lists of one or two) over five paths (existing, new, a directory name, '
                   'below a file name), then commit; any 2, commit, and one more commit of any one operation; separately 2 operations with symbolic contents, which may equal stored '
                   'ones, and a symbolic path of 1 to 3 characters over {/ a b}; also from the empty repository; a commit of five uploads and one deletion in any of two orders, with and without a message',
          'thorough': '4 operations; symbolic contents with 3 operations; symbolic paths of up to 4 characters'}
BUDGET = {'quick': 300, 'thorough': 850}
PATHS = ['/a', '/d/b', '/n', '/d', '/a/x']
DELS = [['/a'], ['/d/b'], ['/n'], ['/zz', '/a'], ['/d/b', '/d/b'], ['/d', '/d/b']]

def plan(tier):
    q = tier == 'quick'
    return [dict(name='ops', fn='ops', params=dict(n=3 if q else 4, start=True), covers=['deleted', 'changed', 'new', 'nothing']),
            dict(name='second', fn='ops', params=dict(n=2 if q else 3, start=True, second=True), covers=['deleted', 'changed', 'new', 'nothing']),
            dict(name='ops-empty', fn='ops', params=dict(n=2 if q else 3, start=False, second=True), covers=['new', 'nothing']),
            dict(name='contents', fn='ops', params=dict(n=2 if q else 3, start=True, sym=True), covers=['deleted', 'changed', 'new']),
            dict(name='paths', fn='ops', params=dict(n=1, start=True, path=[1, 2, 3] if q else [3, 4]), covers=['deleted', 'changed', 'new']),
            dict(name='many', fn='many', params=dict(), covers=['deleted', 'changed', 'new'])]

def do(h, s, k, t, n, sym, path, files, tag, fixed=None, msg='m'):
    """A commit of n operations; returns (files, {path: status}) it should give."""
    import json
    head = s.head()
    hd, _ = k.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': head})
    h.check(hd['status'] == 'ok', 'a commit cannot be begun')
    staged = {}
    for i in range(n):
        op = fixed[i] if fixed else h.choose(tag + 'op', len(PATHS) + len(DELS)) if path is None else h.pick(tag + 'op', [0, len(PATHS)])
        if isinstance(op, str) or op < len(PATHS):
            p = op if isinstance(op, str) else PATHS[op] if path is None else '/' + h.text('path', path, ((47, 47), (97, 98)))
            c = h.content('c', 3, (0, 20)) if sym else h.lit(10 + i)
            hd, _ = k.call('push_file', {'session_token': t, 'repository': 'repo', 'path': p}, c)
            h.check(hd['status'] == 'ok', 'an upload is refused')
            put(staged, p, c)
        else:
            ps = DELS[op - len(PATHS)] if path is None else ['/a', '/' + h.text('path', path, ((47, 47), (97, 98)))]
            hd, _ = k.call('delete_files', {'session_token': t, 'repository': 'repo'}, json.dumps({'files': json.dumps([{'path': p} for p in ps])}).encode('utf8'))
            h.check(hd['status'] == 'ok', 'a deletion is refused')
            for p in ps: put(staged, p, None)
    want = dict(files); st = {}
    for p, c in staged.items():
        if c is None:
            if p in want: del want[p]; st[p] = 'deleted'
        else:
            st[p] = 'changed' if p in files else 'new'
            want[p] = c
    hd, _ = k.call('commit', {'session_token': t, 'repository': 'repo', 'commit_message': msg, 'mode': 'commit'})
    h.check(hd['status'] == 'ok', 'the commit is refused')
    new = s.head()
    h.check(hd['head'] == new, 'the commit names another head')
    if len(st) == 0:
        h.check(new == head, 'a commit without changes makes a version')
        h.cover('nothing')
        return want
    P, vs = s.store()
    o = P.run(vs.read_commit_index_object, new)
    P.end()
    h.check(new != head and o['parent'] == head, 'the parent of the new version is not the previous head')
    hd, body = k.call('list_changes', {'session_token': t, 'repository': 'repo', 'show_head': '1'})
    got = json.loads(body)['changes']
    h.obs('changes', sorted((c['path'], c['status']) for c in got) if path is None else len(got))
    h.check(len(got) == len(st), 'the recorded changes are not the paths of the commit')
    for c in got:
        h.check(c['path'] in st, 'the recorded changes name another path')
        h.check(c['status'] == st[c['path']], 'a change is recorded with another status')
        if c['status'] != 'deleted': h.check(c['hash'] == h.sha(want[c['path']]), 'a change is recorded with another content')
        h.cover(c['status'])
    h.check(lib.same(s.files(), want), 'the version is not its parent plus the changes')
    return want

def put(d, k, v):
    d[k] = v

def ops(h, n, start, sym=False, path=None, second=False):
    s = lib.Server(h)
    files = {}; before = []
    if start:
        a = h.content('a0', 3, (0, 20)) if sym else h.lit(1)
        s.version({'/z': h.lit(9)})
        v = s.version({'/a': a, '/d/b': h.lit(2)}, delete=['/z'])
        files = {'/a': a, '/d/b': h.lit(2)}
        before.append((v, files))
    k = s.connect(); t = s.session(k)
    files = do(h, s, k, t, n, sym, path, dict(files), '')
    if s.head() != 'root': before.append((s.head(), dict(files)))
    if second:
        files = do(h, s, k, t, 1, sym, path, dict(files), 'second ')
    for v, f in before: h.check(lib.same(s.files(v), f), 'an earlier version changed')

def many(h):
    s = lib.Server(h)
    v = s.version({'/a': h.lit(1), '/d/b': h.lit(2), '/z': h.lit(3), '/y': h.lit(4)})
    k = s.connect(); t = s.session(k)
    seq = h.pick('sequence', [['/n', '/d/n', '/a', 1 + len(PATHS), '/m/n/o', '/zz'], [0 + len(PATHS), '/z', '/y', '/d/b', '/q', '/d/c/e', 2 + len(PATHS)]])
    do(h, s, k, t, len(seq), False, None, {'/a': h.lit(1), '/d/b': h.lit(2), '/z': h.lit(3), '/y': h.lit(4)}, '', seq, h.pick('message', ['', 'm']))
    h.check(lib.same(s.files(v), {'/a': h.lit(1), '/d/b': h.lit(2), '/z': h.lit(3), '/y': h.lit(4)}), 'an earlier version changed')
