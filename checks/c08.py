"""C08: stored content is exact, addressed by its hash and stored once."""
import json
import checks.lib as lib, checks.wire as wire
BOUNDS = {'quick': 'files of any size from 0 to 3 MB sent by the real client through the real HTTP code to the real server and pulled back; up to three uploads of symbolic contents, equal '
                   'to each other or to stored ones or not, at up to three paths, over one or two commits, deleted and uploaded again; contents whose hashes start with the same digits',
          'thorough': 'four uploads; sizes up to 12 MB'}
ASSUMES = ['SHA-256 does not collide']
BUDGET = {'quick': 240, 'thorough': 800}

def plan(tier):
    q = tier == 'quick'
    mb = 3000000 if q else 12000000
    return [dict(name='wire', fn='through', params=dict(mb=mb), covers=['same', 'differ', 'empty', 'large']),
            dict(name='store', fn='store', params=dict(n=3 if q else 4), covers=['shared', 'all-differ', 'stored-before']),
            dict(name='near', fn='near', params=dict(n=3 if q else 4), covers=['near', 'twice']),
            dict(name='again', fn='again', params=dict(), covers=['deleted', 'kept'])]

def objects(h, s): return h.tree(s.path() + '/files')

def exact(h, s, contents):
    """Exactly these contents are stored, each once, under its hash."""
    t = objects(h, s)
    want = {}
    for c in contents: want['/' + h.sha(c)[:2] + '/' + h.sha(c)[2:]] = c
    for q in want: h.check(q in t and t[q] == want[q], 'a content is not stored under its hash')
    h.check(len(t) == len(want), 'a content is stored twice, or something else is stored')

def through(h, mb):
    """Push and pull over the wire."""
    s = lib.Server(h)
    k = s.connect(); t = s.session(k)
    c1 = h.content('c1', 3, (0, mb)); c2 = h.content('c2', 3, (0, 1000))
    h.cover('same' if c1 == c2 else 'differ')
    if len(c1) == 0: h.cover('empty')
    if len(c1) > 2000000: h.cover('large')
    h.write(h.p('/wc/f1'), c1); h.write(h.p('/wc/f2'), c2)
    hd = {'session_token': t, 'repository': 'repo'}
    def act(op, hd2, body={}): return lambda c: c.request(op, dict(hd, **hd2), body)
    rqs = wire.requests(h, [act('begin_commit', {'user': 'u', 'previous_revision': 'root'}),
        lambda c: c.send_file('push_file', dict(hd, path='/one'), h.p('/wc/f1')),
        lambda c: c.send_file('push_file', dict(hd, path='/d/two'), h.p('/wc/f2')),
        act('commit', {'commit_message': 'm', 'mode': 'commit'})])
    sk = wire.Sock(h)
    def onempty(k): k.data = rqs.pop(0) if rqs else b''
    sk.onempty = onempty
    wire.serve(h, s.P, [sk], s.mod.endpoint)
    exact(h, s, [c1, c2])
    f = s.files()
    h.check(lib.same(f, {'/one': c1, '/d/two': c2}), 'the version does not hold what was sent')
    # and back
    for q, c in (('/one', c1), ('/d/two', c2)):
        rq = wire.requests(h, [act('pull_file', {'path': q, 'use_head': '1'})])
        sk = wire.Sock(h, rq[0])
        wire.serve(h, s.P, [sk], s.mod.endpoint)
        P = h.proc('client')
        k2 = wire.Sock(h, sk.out)
        h.world.sock_factory = lambda proc: k2
        cl = P.run(P.mod('bversion.http.client_http_request').client_http_request, 'http://srv')
        w, _ = P.run(cl.request, 'x', {}, gen=True)
        P.run(w, h.p('/wc/got'))
        P.end()
        h.world.sock_factory = None
        h.obs('pulled', h.read(h.p('/wc/got')))
        h.check(h.read(h.p('/wc/got')) == c, 'a file comes back changed')

def call(h, k, t, op, data=b'', **hd):
    r = k.call(op, dict(hd, session_token=t, repository='repo'), data)
    h.check(r[0]['status'] == 'ok', op + ' is refused')
    return r

def store(h, n):
    """Uploads of equal and different contents over two commits."""
    s = lib.Server(h)
    old = h.content('old', 5, (0, 9)); s.version({'/o': old})
    s.start()
    k = s.connect(); t = s.session(k)
    want = {'/o': old}; stored = [old]; new = []
    split = h.int('split', 0, n)
    call(h, k, t, 'begin_commit', b'{}', user='u', previous_revision=s.head())
    for i in range(n):
        if i > 0 and i == split:
            v = call(h, k, t, 'commit', commit_message='m', mode='commit')[0]['head']
            call(h, k, t, 'begin_commit', b'{}', user='u', previous_revision=v)
        c = h.content('c%d' % i, 5, (0, 9))
        q = h.pick('path', ['/a', '/d/a', '/o'])
        before = objects(h, s)
        call(h, k, t, 'push_file', c, path=q)
        if any(c == x for x in stored):
            h.cover('stored-before')
            h.check(len(objects(h, s)) == len(before), 'a stored content is stored again')
        stored.append(c); want[q] = c
        for p, x in before.items(): h.check(objects(h, s)[p] == x, 'a stored content is displaced')
        h.check(not h.exists(s.path() + '/tmp_file'), 'an upload stays in the temporary file')
    if all(a != b for i, a in enumerate(stored) for b in stored[:i]): h.cover('all-differ')
    else: h.cover('shared')
    call(h, k, t, 'commit', commit_message='m', mode='commit')
    exact(h, s, stored)
    h.check(lib.same(s.files(), want), 'the version does not hold what was sent')

def near(h, n):
    """Contents whose hashes share their leading digits."""
    s = lib.Server(h)
    a = h.lit(1); kinds = [a, h.alike(a), h.alike(a, 1), h.lit(2)]
    s.version({'/o': kinds[0]})
    stored = [a]; want = {'/o': a}
    for i in range(n):
        c = h.pick('which', kinds); q = '/p%d' % i
        if c in kinds[1:3]: h.cover('twice' if c in stored else 'near')
        s.version({q: c}); want[q] = c
        if c not in stored: stored.append(c)
        exact(h, s, stored)
    h.check(lib.same(s.files(), want), 'the version does not hold what was sent')

def again(h):
    """A content leaves the head and comes back."""
    s = lib.Server(h)
    c = h.content('c', 3, (0, 9)); d = h.content('d', 3, (0, 9))
    v1 = s.version({'/a': c, '/b': d})
    kept = h.flag('kept')
    v2 = s.version({'/x': h.lit(1)}, delete=['/a'] if kept else ['/a', '/b'])
    h.cover('kept' if kept else 'deleted')
    exact(h, s, [c, d, h.lit(1)])
    h.check(lib.same(s.files(v1), {'/a': c, '/b': d}), 'an earlier version lost a content')
    e = h.content('e', 3, (0, 9))
    v3 = s.version({'/c': e, '/a': d})
    exact(h, s, [c, d, e, h.lit(1)])
    want = {'/x': h.lit(1), '/c': e, '/a': d}
    if kept: want['/b'] = d
    h.check(lib.same(s.files(v3), want) and lib.same(s.files(v1), {'/a': c, '/b': d}), 'a version lost a content')
