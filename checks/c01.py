"""C01: three-way triage of changes."""
BOUNDS = {'quick': 'two paths with symbolic names (of one to three characters, in one or two components, with and without extensions), every pair of client and server statuses, either order of appearance',
          'thorough': 'three paths'}

def plan(tier):
    out = [dict(name='one', fn='triage', params=dict(k=1, sym=True), covers=['conflict', 'push', 'pull']),
           dict(name='two', fn='triage', params=dict(k=2, sym=True), covers=['conflict'])]
    if tier != 'quick': out.append(dict(name='three', fn='triage', params=dict(k=3, sym=False), covers=['conflict']))
    return out

ST = ['absent', 'new', 'changed', 'deleted', 'unchanged']

def expected(s, c):
    loc = c in ('new', 'changed'); srv = s in ('new', 'changed')
    if loc and (srv or s == 'deleted'): return ['conflict_files']
    if srv and c == 'deleted': return ['conflict_files']
    if s == 'deleted' and c == 'deleted': return ['to_delete_on_client', 'no_op']
    if srv: return ['client_pull_files']
    if s == 'deleted': return ['to_delete_on_client']
    if loc: return ['client_push_files']
    if c == 'deleted': return ['to_delete_on_server']
    if s == 'unchanged' and c == 'unchanged': return ['no_op']
    if s == 'unchanged': return ['client_pull_files']
    return ['error_files']

def triage(h, k, sym):
    P = h.proc('p')
    f = P.mod('bversion.merge_client_and_server_changes').merge_client_and_server_changes
    server = {}; client = {}; want = []; paths = []
    for i in range(k):
        if sym:
            p = '/' + h.text('p%d' % i, [1, 3] if i == 0 else [1] if i == 1 else [2], ((32, 122),))
            h.assume(not p.endswith('/') and '//' not in p)
        else: p = ['/a.txt', '/d/a', '/d/b.c'][i]
        for q in paths: h.assume(p != q)
        paths.append(p)
        s = h.pick('s%d' % i, ST); c = h.pick('c%d' % i, ST)
        h.assume(s != 'absent' or c != 'absent')
        if s != 'absent': server[p] = {'path': p, 'status': s, 'hash': 's%d' % i}
        if c != 'absent': client[p] = {'path': p, 'status': c, 'last_mod': i}
        want.append(expected(s, c))
    r = P.attempt(f, server, client)
    h.check(r.ok, 'triage failed: ' + r.text())
    out = r.value
    where = [[] for p in paths]; total = 0
    for b, items in out.items():
        for it in items:
            q = it['file_info']['path'] if b == 'conflict_files' else it['path']
            total += 1
            for i in range(k):
                if paths[i] == q: where[i].append(b); break
    h.obs('where', where)
    h.check(total == k, 'a path has no outcome or several')
    for i in range(k):
        h.check(len(where[i]) == 1, 'a path has no outcome or several: %s' % (where[i],))
        h.check(where[i][0] in want[i], 'a path expected in %s is in %s' % (want[i], where[i][0]))
        h.cover({'conflict_files': 'conflict', 'client_push_files': 'push', 'client_pull_files': 'pull'}.get(where[i][0], 'other'))
