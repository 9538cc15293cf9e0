"""C07: the incremental change report equals the difference of the versions."""
import json
import checks.lib as lib
BOUNDS = {'quick': 'histories of 3 versions over two paths and of 6 versions over one path, each uploading (symbolic contents, possibly equal to earlier ones), deleting or leaving alone any of the paths; the changes since every earlier version '
                   '(also since the beginning) to every later one, asked from the storage and, for the last one, from the server; questions from later versions, from objects of other '
                   'kinds and from symbolic ids of 1 to 3 hex digits or 64 equal ones',
          'thorough': 'histories of 4 versions over two paths, of 7 over one path; three paths in 3 versions'}
BUDGET = {'quick': 240, 'thorough': 850}

def plan(tier):
    q = tier == 'quick'
    return [dict(name='history', fn='history', params=dict(n=3, paths=['/a', '/d/b']), covers=['again', 'gone', 'empty']),
            dict(name='single', fn='history', params=dict(n=6 if q else 7, paths=['/d/b'], server=False), covers=['again', 'gone']),
            dict(name='unknown', fn='unknown', params=dict(), covers=['hex', 'other'])] + \
        ([] if q else [dict(name='longer', fn='history', params=dict(n=4, paths=['/a', '/d/b'], server=False), covers=['again', 'gone']),
                       dict(name='wider', fn='history', params=dict(n=3, paths=['/a', '/d/b', '/d/c'], server=False), covers=['again', 'gone'])])

def apply(h, files, changes):
    out = dict(files)
    for p, c in changes.items():
        h.check(c['path'] == p, 'a change is reported under another path')
        if c['status'] == 'deleted': out.pop(p, None)
        else:
            h.check(c['status'] in ('new', 'changed'), 'a change of unknown kind is reported')
            out[p] = c['hash']
    return out

def history(h, n, paths, server=True):
    s = lib.Server(h)
    P, vs = s.store()
    files = {'/keep': h.sha(h.lit(9))}
    ids = ['root']; hist = [{}]
    for i in range(n):
        P.run(vs.begin, 'u', 'ip', 't')
        did = False
        if i == 0:
            h.write(s.path() + '/up', h.lit(9)); P.run(vs.fs_put_from_file, s.path() + '/up', {'path': '/keep'}); did = True
        for p in paths:
            op = h.pick('op', ['none', 'put'] + (['delete'] if p in files else []))
            if op == 'put':
                c = h.content('c', 3)
                h.write(s.path() + '/up', c); P.run(vs.fs_put_from_file, s.path() + '/up', {'path': p})
                if any(p in f for f in hist) and p not in files: h.cover('again')
                files[p] = h.sha(c); did = True
            elif op == 'delete':
                P.run(vs.fs_delete, [{'path': p}]); files.pop(p); did = True; h.cover('gone')
        h.assume(did)
        ids.append(P.run(vs.commit, 'm', 'u')); hist.append(dict(files))
    for j in range(1, n + 1):
        for i in range(j + 1):
            r = P.attempt(vs.get_changes_since, ids[i], ids[j])
            h.check(r.ok, 'no report of the changes since an ancestor: ' + r.text())
            ch = r.value
            if i == j: h.check(len(ch) == 0, 'changes are reported between a version and itself'); h.cover('empty')
            h.check(lib.same(apply(h, hist[i], ch), hist[j]), 'the reported changes do not lead from the older version to the newer one')
        for i in range(j + 1, n + 1):
            r = P.attempt(vs.get_changes_since, ids[i], ids[j])
            h.check(not r.ok, 'changes since a later version are reported')
    if not server: return
    s.start()
    k = s.connect(); t = s.session(k)
    for i in range(n + 1):
        hd, body = k.call('find_changed', {'session_token': t, 'repository': 'repo', 'previous_revision': ids[i], 'include_unchanged': '0'}, b'{"client_changes": "{}"}')
        r = json.loads(body)
        h.check(r['head'] == ids[n], 'the head reported is not the head')
        ch = {}; names = []
        for kind, lst in r['sorted_changes'].items():
            for c in lst: ch[c['path']] = c; names.append(c['path'])
        h.check(len(ch) == len(names), 'a path is reported twice')
        h.check(lib.same(apply(h, hist[i], ch), hist[n]), 'what the server reports does not lead from the older version to the head')
        if i == n: h.check(len(ch) == 0, 'the server reports changes since the head')

def unknown(h):
    s = lib.Server(h)
    v1 = s.version({'/a': h.lit(1), '/d/b': h.lit(2)})
    v2 = s.version({'/a': h.lit(3)})
    P, vs = s.store()
    root = P.run(vs.read_commit_index_object, v2)['tree_root']
    what = h.pick('what', ['hex', 'long', 'other'])
    if what == 'hex': q = h.text('id', [1, 2, 3], ((48, 57), (97, 102))); h.cover('hex')
    elif what == 'long':
        q = h.text('id', 1, ((48, 57), (97, 102))) * 64
    else: q = h.pick('id', [root, h.sha(h.lit(1)), '', v1[:-1], v1 + '0', v1.upper() if v1.upper() != v1 else 'X', '../head', 'head', v1[:2] + '/' + v1[2:]]); h.cover('other')
    s.start()
    k = s.connect(); t = s.session(k)
    try:
        hd, body = k.call('find_changed', {'session_token': t, 'repository': 'repo', 'previous_revision': q, 'include_unchanged': '0'}, b'{"client_changes": "{}"}')
        h.check(hd['status'] != 'ok', 'changes since something that is no version are reported')
    except lib.Closed: pass
    h.check(lib.same(s.files(), {'/a': h.lit(3), '/d/b': h.lit(2)}), 'a question changed the repository')
