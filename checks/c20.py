"""C20: names supplied by clients: paths pushed, version identifiers asked for."""
import checks.lib as lib
BOUNDS = {'quick': 'pushed path: any 1-4 characters over {. / \\ a b}; version identifier in every request that takes one: any 1-5 characters over {. / 0-9 a-g}, '
                   'or the name of a stored tree, file or commit object',
          'thorough': 'pushed path up to 5 characters, also over all printable ASCII (3 characters)'}

def plan(tier):
    P4 = ((46, 47), (92, 92), (97, 98))
    out = [dict(name='push', fn='push', params=dict(lens=[1, 2, 3, 4], al=((46, 47), (92, 92), (97, 97))), covers=['accepted', 'refused']),
           dict(name='push-rooted', fn='push', params=dict(lens=[2, 4], al=P4, rooted=True), covers=['accepted', 'refused']),
           dict(name='ids', fn='ids', params=dict(lens=[1, 3, 5]), covers=['refused']),
           dict(name='kinds', fn='kinds', params=dict(), covers=['commit', 'other'])]
    if tier != 'quick':
        out += [dict(name='push-5', fn='push', params=dict(lens=[5], al=((46, 47), (92, 92), (97, 97))), covers=['accepted', 'refused']),
                dict(name='push-ascii', fn='push', params=dict(lens=[1, 3], al=((33, 126),)), covers=['accepted', 'refused'])]
    return out

def bad(p):
    if p == '' or not p.startswith('/'): return True
    for part in p.replace('\\', '/').split('/'):
        if part == '.' or part == '..': return True
    return False

def push(h, lens, al, rooted=False):
    s = lib.Server(h)
    k = s.connect()
    t = s.session(k)
    hd, _ = k.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': 'root'})
    h.check(hd['status'] == 'ok', 'a commit cannot be begun')
    p = ('/' if rooted else '') + h.text('path', lens, al)
    try: st = k.call('push_file', {'session_token': t, 'repository': 'repo', 'path': p}, h.lit(1))[0]['status']
    except lib.Closed: st = 'closed'
    h.check(bad(p) <= (st != 'ok'), 'a path that is not rooted or has a dot component is accepted')
    h.obs('status', st)
    if st == 'closed':
        k = s.connect()
        hd, _ = k.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': 'root'})
    k.call('push_file', {'session_token': t, 'repository': 'repo', 'path': '/keep'}, h.lit(2))
    hd, _ = k.call('commit', {'session_token': t, 'repository': 'repo', 'commit_message': 'm', 'mode': 'commit'})
    h.check(hd['status'] == 'ok', 'the commit failed')
    got = s.files()
    want = {'/keep': h.lit(2)}
    if st == 'ok': want[p] = h.lit(1) if p != '/keep' else h.lit(2)
    h.check(lib.same(got, want), 'an accepted path is not stored under exactly its name')
    h.cover('accepted' if st == 'ok' else 'refused')

def requests(t, v, path='/d/f'):
    b = {'session_token': t, 'repository': 'repo'}
    return [('list_changes', dict(b, show_head='0', version_id=v), b''), ('list_files', dict(b, show_head='0', version_id=v), b''),
            ('pull_file', dict(b, use_head='0', version_id=v, path=path), b''),
            ('find_changed', dict(b, previous_revision=v, include_unchanged='0'), b'{"client_changes": "{}"}')]

def watch(h, s):
    """Every file the server opens for reading lies where its own objects lie."""
    base = s.path() + '/'
    def hook(proc, path):
        if h.world.quiet: return
        out = []
        for c in path.split('/'):
            if c == '' or c == '.': continue
            if c == '..':
                if out: out.pop()
            else: out.append(c)
        real = '/' + '/'.join(out)
        h.check(real.startswith(base + 'index/') or real.startswith(base + 'files/') or real == base + 'head',
                'the server reads outside its objects: a client-supplied identifier leads elsewhere')
    h.world.read_hook = hook

def ids(h, lens):
    s = lib.Server(h)
    v1 = s.version({'/d/f': h.lit(1)})
    s.version({'/g': h.lit(2)})
    h.write(s.path() + '/x', b'{"type": "commit", "changes": [], "tree_root": "x", "parent": "root"}')
    h.write(s.path() + '/index/aa', b'{"type": "commit"}')
    k = s.connect(); t = s.session(k)
    v = h.text('id', lens, ((46, 57), (97, 103)))
    rq = requests(t, v)[h.choose('request', 4)]
    watch(h, s)
    try:
        hd, body = k.call(rq[0], rq[1], rq[2])
        st = hd['status']
    except lib.Closed: st = 'closed'
    h.world.read_hook = None
    h.obs('status', st)
    h.check(st != 'ok', 'an identifier that names no version is answered')
    h.cover('refused')

def kinds(h):
    """Identifiers of other objects."""
    import json
    s = lib.Server(h)
    v1 = s.version({'/d/f': h.lit(1), '/h': b'{"type": "commit", "changes": [], "tree_root": "x", "parent": "root"}'})
    s.version({'/g': h.lit(2)})
    P, vs = s.store()
    tree = P.run(vs.read_commit_index_object, v1)['tree_root']
    sub = P.run(vs.read_tree_index_object, tree)['dirs']['d']
    fh = P.run(vs.get_commit_files, v1)['/h']['hash']
    P.end()
    k = s.connect(); t = s.session(k)
    kind, v = h.pick('object', [('commit', v1), ('tree', tree), ('tree', sub), ('file', fh), ('file', h.sha(h.lit(1)))])
    rq = requests(t, v, h.pick('path', ['/d/f', '/f']))[h.choose('request', 4)]
    watch(h, s)
    try: st = k.call(rq[0], rq[1], rq[2])[0]['status']
    except lib.Closed: st = 'closed'
    h.world.read_hook = None
    h.obs('status', st)
    if kind != 'commit': h.check(st != 'ok', 'an object of another kind is served as a version'); h.cover('other')
    elif rq[0] != 'pull_file': h.check(st == 'ok', 'a version is refused'); h.cover('commit')
