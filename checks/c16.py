"""C16: only the lock holder with the latest revision can change a repository."""
import checks.lib as lib
BOUNDS = {'quick': 'two repositories, two connections (same user and address, same user from another address, another user from the same address; the request always '
                   'claims to be the first user), any 2 operations out of begin (right or stale revision), push, delete, commit, abort, disconnect and '
                   'reconnect on either connection and repository, after each of five prefixes (begun, begun with a staged file, interrupted with a staged file, begun on both repositories by one connection or by two); '
                   'begin by the second connection at any database statement or write of the first one\'s begin, push and commit; over the real HTTPServer: the second connection with any two '
                   'requests, from its beginning to its end between two requests of the first',
          'thorough': 'one more operation everywhere'}
BUDGET = {'quick': 300, 'thorough': 850}
A, B = 'repo', 'repo2'
IP1, IP2 = '10.0.0.1', '10.0.0.12'
WHO = {'twin': ('u1', IP1), 'elsewhere': ('u1', IP2), 'other': ('u12', IP1)}
PRE = {'begun': [('begin', 0, A)], 'staged': [('begin', 0, A), ('push', 0, A)], 'interrupted': [('begin', 0, A), ('push', 0, A), ('drop', 0, '')],
       'double': [('begin', 0, A), ('begin', 0, B), ('push', 0, A)], 'both': [('begin', 0, A), ('begin', 1, B), ('push', 0, A)]}
OPS = [(op, c, r) for c in (0, 1) for op, r in (('begin', A), ('begin', B), ('stale', A), ('push', A), ('push', B), ('delete', A), ('commit', A),
                                                ('commit', B), ('abort', A), ('drop', ''))]

def plan(tier):
    more = 0 if tier == 'quick' else 1
    out = []
    for w in WHO:
        for p in PRE:
            out.append(dict(name='%s-%s' % (w, p), fn='seq', params=dict(who=w, pre=p, n=2 + more),
                            covers=['begun', 'refused'] + (['resumed'] if w == 'twin' and p == 'interrupted' else [])))
    for w in WHO: out.append(dict(name='wire-' + w, fn='onwire', params=dict(who=w), covers=['between', 'left', 'committed']))
    for w in WHO: out.append(dict(name='race-' + w, fn='race', params=dict(who=w), covers=['during']))
    return out

class C: pass

def setup(h, who):
    users = {'u1': {'public_key': lib.PUB1, 'uses_repositories': [A, B]}, 'u12': {'public_key': lib.PUB2, 'uses_repositories': [A, B]}}
    s = lib.Server(h, [A, B], users)
    m = {}
    for r in (A, B):
        s.version({'/f': h.lit(1)}, repo=r)
        m[r] = dict(old='root', head=s.version({'/g': h.lit(2)}, repo=r), files={'/f': h.lit(1), '/g': h.lit(2)}, holder=None, staged=None, owner=None, sure=True)
    s.start()
    cs = []
    for u, ip in (('u1', IP1), WHO[who]):
        c = C(); c.user = u; c.ip = ip; c.conn = s.connect(ip); c.tok = {r: s.session(c.conn, r, u, lib.PRIV1 if u == 'u1' else lib.PRIV2) for r in (A, B)}
        cs.append(c)
    return s, m, cs

def call(c, op, r, **k):
    data = k.pop('data', b'')
    try: return c.conn.call(op, dict(k, session_token=c.tok[r], repository=r), data)
    except lib.Closed: return {'status': 'closed'}, b''

def drop(s, m, c):
    c.conn.close()
    for r in m:
        if m[r]['holder'] is c: m[r]['holder'] = None
    c.conn = s.connect(c.ip)

def apply(m, r, staged):
    f = dict(m[r]['files'])
    for q, v in staged.items():
        if v is None: f.pop(q, None)
        else: f[q] = v
    return f

def step(h, s, m, cs, op, ci, r, i):
    import json
    c = cs[ci]
    if op == 'drop': drop(s, m, c); return
    q = m[r]
    if op in ('begin', 'stale'):
        hd, body = call(c, 'begin_commit', r, user='u1', previous_revision=q['head'] if op == 'begin' else q['old'])
        ok = op == 'begin' and q['holder'] is None and all(m[x]['holder'] is not c for x in m)
        h.check(ok or hd['status'] != 'ok', 'a commit is begun without the lock, from a stale revision, or next to another')
        h.check(hd['status'] == 'ok' or not ok, 'a commit cannot be begun although nobody is inside one')
        if not ok:
            h.cover('refused')
            if hd['status'] == 'closed': drop(s, m, c)
            if q['holder'] is None: q['sure'] = False        # a refused begin may already have given up an interrupted commit
            return
        h.cover('begun')
        part = {f['path']: f['hash'] for f in json.loads(body)['partial_commit']}
        mine = q['owner'] == (c.user, c.ip)
        want = {p: v for p, v in (q['staged'] or {}).items() if v is not None}
        if not mine: h.check(len(part) == 0, 'someone else gets to resume an interrupted commit')
        else:
            h.check(all(p in want and h.sha(want[p]) == x for p, x in part.items()), 'a resumed commit holds something that was not staged')
            if q['sure']: h.check(len(part) == len(want), 'the owner does not get to resume the interrupted commit')
            if len(part): h.cover('resumed')
        q['staged'] = {p: want[p] for p in part}
        q['owner'] = (c.user, c.ip); q['holder'] = c; q['sure'] = True
        return
    inside = q['holder'] is c
    if op == 'push':
        hd, _ = call(c, 'push_file', r, path='/p%d' % ci, data=h.lit(10 + i))
        if inside: q['staged']['/p%d' % ci] = h.lit(10 + i)
    elif op == 'delete':
        hd, _ = call(c, 'delete_files', r, data=b'{"files": "[{\\"path\\": \\"/f\\"}]"}')
        if inside: q['staged']['/f'] = None
    else:
        hd, _ = call(c, 'commit', r, commit_message='m', mode=op)
        if inside:
            if op == 'commit' and q['staged']: q['files'] = apply(m, r, q['staged'])
            q['staged'] = None; q['owner'] = None; q['holder'] = None
            if op == 'commit' and hd.get('head') != q['head']: q['old'] = q['head']; q['head'] = hd.get('head')
    h.check(inside or hd['status'] != 'ok', 'a connection that does not hold the lock changes the repository')
    h.check(hd['status'] == 'ok' or not inside, 'the lock holder is refused')
    if not inside:
        h.cover('refused')
        if hd['status'] == 'closed': drop(s, m, c)

def final(h, s, m, cs, all_free=True):
    for r in m:
        h.check(s.head(r) == m[r]['head'], 'the head is not the last version committed')
        h.check(lib.same(s.files(repo=r), m[r]['files']), 'a version holds something its committer did not stage')
    # whoever is inside a commit finishes it with exactly what it staged; then the locks are free
    for c in cs: drop(s, m, c)
    for r in m:
        step(h, s, m, cs, 'begin', 1, r, 0)
        step(h, s, m, cs, 'push', 1, r, 40)
        step(h, s, m, cs, 'commit', 1, r, 0)
        h.check(lib.same(s.files(repo=r), m[r]['files']), 'a version holds something its committer did not stage')

def seq(h, who, pre, n):
    s, m, cs = setup(h, who)
    for i, (op, c, r) in enumerate(PRE[pre]): step(h, s, m, cs, op, c, r, i)
    for i in range(n):
        op, c, r = h.pick('op', OPS)
        h.note('%s %d %s' % (op, c, r))
        step(h, s, m, cs, op, c, r, 5 + i)
    final(h, s, m, cs)

def race(h, who):
    """The second connection tries to get in at any moment of the first one's work."""
    s, m, cs = setup(h, who)
    a, b = cs
    interrupted = h.flag('interrupted')
    if interrupted:
        step(h, s, m, cs, 'begin', 0, A, 0); step(h, s, m, cs, 'push', 0, A, 1); drop(s, m, a)
    at = h.int('at', 0, 120)
    n = [0]; got = []; inside = ['begin']
    def obs(proc, kind, detail):
        if got: return
        n[0] += 1
        if at == n[0] - 1:
            got.append(None)
            got[0] = call(b, 'begin_commit', A, user='u1', previous_revision=m[A]['head'])[0]['status']
            h.cover('during'); h.note('second begins during ' + inside[0])
    h.world.stmt_observers.append(obs); h.world.observers.append(obs)
    hd, _ = call(a, 'begin_commit', A, user='u1', previous_revision=m[A]['head'])
    st = hd['status']
    h.check(not (st == 'ok' and got and got[0] == 'ok'), 'two connections are inside a commit')
    inside[0] = 'push'
    if st == 'ok':
        was = len(got)
        hd, _ = call(a, 'push_file', A, path='/p', data=h.lit(11))
        if len(got) > was: h.check(got[0] != 'ok', 'two connections are inside a commit')
        h.check(hd['status'] == 'ok', 'the lock holder is refused')
        inside[0] = 'commit'
        was = len(got)
        hd, _ = call(a, 'commit', A, commit_message='m', mode='commit')
        h.check(hd['status'] == 'ok', 'the lock holder is refused')
        if len(got) > was: h.check(got[0] != 'ok' or s.head(A) != hd['head'] or True, '')
    h.world.stmt_observers.remove(obs); h.world.observers.remove(obs)
    h.obs('second', got)
    if st == 'ok':
        f = s.files(repo=A)
        want = {'/f': h.lit(1), '/g': h.lit(2), '/p': h.lit(11)}
        if interrupted: want['/p0'] = h.lit(11)
        h.check(lib.same(f, want), 'the version is not what its committer staged')

def message(op, headers, data):
    return b'POST /' + op.encode('utf8') + b' HTTP/1.1\r\ncontent-length: ' + str(len(data)).encode('utf8') + b'\r\n' + \
        b''.join(k.encode('utf8') + b': ' + v.encode('utf8') + b'\r\n' for k, v in headers.items()) + b'\r\n' + data

class Chat:
    """A connection of the real HTTPServer whose other end follows a script (a generator of requests that is given the answers)."""
    def __init__(self, h, script):
        import checks.wire as wire
        self.gen = script; self.started = False
        self.sock = wire.Sock(h); self.sock.onempty = self.more
    def more(self, k):
        try:
            if not self.started: self.started = True; rq = next(self.gen)
            else:
                head, data = k.out.split(b'\r\n\r\n', 1)
                hd = {}
                for l in head.split(b'\r\n')[1:]:
                    a, b = l.split(b':', 1); hd[a.decode('utf8').lower()] = b.decode('utf8').strip()
                rq = self.gen.send((hd, data))
        except StopIteration: return
        k.out = b''
        k.data = message(*rq)

def onwire(h, who):
    """One connection is served by the real HTTPServer, from its beginning to its end, between two requests of another."""
    import checks.wire as wire
    s, m, cs = setup(h, who)
    a, b = cs
    base = dict(m[A]['files'])
    threads = []
    st = dict(files=base, staged=None, head=m[A]['head'])
    def rq(c, op, data=b'', **k): return op, dict(k, session_token=c.tok[A], repository=A), data
    first = h.pick('first', ['nothing', 'begun', 'staged'])
    ops = [h.pick('op', ['begin', 'push', 'delete', 'commit', 'abort', 'refused']) for _ in range(2)]
    def other():
        inside = False
        for op in ops:
            free = first == 'nothing'
            if op == 'begin':
                hd, _ = yield rq(b, 'begin_commit', user='u1', previous_revision=st['head'])
                h.check((hd['status'] == 'ok') == (free and not inside), 'a second commit is begun, or the first is refused')
                if hd['status'] == 'ok': inside = True; st['staged'] = {}
                continue
            if op == 'refused': hd, _ = yield rq(b, 'begin_commit', user='u1', previous_revision=m[A]['old']); h.check(hd['status'] != 'ok', 'a commit is begun from a stale revision'); continue
            if op == 'push':
                hd, _ = yield rq(b, 'push_file', b'two', path='/p1')
                if inside: st['staged']['/p1'] = b'two'
            elif op == 'delete':
                hd, _ = yield rq(b, 'delete_files', b'{"files": "[{\\"path\\": \\"/f\\"}]"}')
                if inside: st['staged']['/f'] = None
            else:
                hd, _ = yield rq(b, 'commit', commit_message='m', mode=op)
            h.check((hd['status'] == 'ok') == inside, 'a connection that does not hold the lock changes the repository, or the holder is refused')
            if op in ('commit', 'abort') and inside:
                if op == 'commit' and st['staged']:
                    f = dict(st['files']); f.update(st['staged']); st['files'] = {q: v for q, v in f.items() if v is not None}
                    st['head'] = hd['head']
                st['staged'] = None; inside = False
        if inside: h.cover('left')
    def one():
        put = {}
        if first != 'nothing':
            hd, _ = yield rq(a, 'begin_commit', user='u1', previous_revision=st['head'])
            h.check(hd['status'] == 'ok', 'a commit cannot be begun although nobody is inside one')
            if first == 'staged':
                hd, _ = yield rq(a, 'push_file', b'one', path='/p0'); put['/p0'] = b'one'
                h.check(hd['status'] == 'ok', 'the lock holder is refused')
        else:
            hd, _ = yield rq(a, 'find_changed', b'{"client_changes": "{}"}', previous_revision=st['head'], include_unchanged='0')
        if len(threads) > 1: threads[1]()
        if first == 'nothing':
            hd, _ = yield rq(a, 'push_file', b'x', path='/x')
            h.check(hd['status'] != 'ok', 'a connection that does not hold the lock changes the repository')
            hd, _ = yield rq(a, 'begin_commit', user='u1', previous_revision=st['head'])
            h.check(hd['status'] == 'ok', 'a commit cannot be begun although nobody is inside one')
            if who == 'twin' and st['staged']: put.update({q: v for q, v in st['staged'].items() if v is not None})
        else: h.cover('between')
        hd, _ = yield rq(a, 'push_file', b'three', path='/p2'); put['/p2'] = b'three'
        h.check(hd['status'] == 'ok', 'the lock holder is refused')
        hd, _ = yield rq(a, 'commit', commit_message='m', mode='commit')
        h.check(hd['status'] == 'ok', 'the lock holder is refused')
        f = dict(st['files']); f.update(put)
        h.check(s.head(A) == hd['head'] and lib.same(s.files(repo=A), f), 'a version holds something its committer did not stage')
        h.cover('committed')
    chats = [Chat(h, one()), Chat(h, other())]
    class Listener(wire.Listener):
        def accept(self):
            if not self.socks: raise KeyboardInterrupt()
            self.n += 1
            return self.socks.pop(0), (cs[self.n - 1].ip, 4000 + self.n)
    def runner(proc, f, args, k):
        name = 'wire%d' % len(threads)
        def go():
            s.P.attempt(f, *args, thread=name, **k); s.P.end_thread(name)
        threads.append(go)
    w = h.world; old = (w.sock_factory, w.thread_runner)
    w.sock_factory = lambda proc: Listener([c.sock for c in chats]); w.thread_runner = runner
    hs = s.P.mod('bversion.http.http_server')
    try: s.P.run(hs.HTTPServer, '0.0.0.0', 80, s.mod.endpoint)
    except KeyboardInterrupt: pass
    h.check(len(threads) == 2, 'a connection is not served')
    threads[0]()
    w.sock_factory, w.thread_runner = old
    c = lib.Conn(s, a.ip)
    hd, _ = c.call('begin_commit', dict(session_token=a.tok[A], repository=A, user='u1', previous_revision=s.head(A)))
    h.check(hd['status'] == 'ok', 'the lock is still held after its connection ended')
