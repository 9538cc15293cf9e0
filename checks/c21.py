"""C21: message bodies arrive intact however the network splits them."""
import json
import checks.lib as lib, checks.wire as wire
BOUNDS = {'quick': 'two messages on a connection; bodies of 0 to 3 symbolic bytes cut at any 2 places (around the body also for all ways of reading it: at once, in portions of 1, 2 or 4, '
                   'partly, not at all) or into single bytes; bodies and served files of any size up to 3 MB cut around the end of the head and anywhere in the body; '
                   'up to 2 partial sends of any length; the stream ends (or is reset) at any place',
          'thorough': 'bodies up to 5 bytes, 3 cuts; 3 cuts in large bodies; 3 partial sends'}
OUTSIDE = ['TLS, timeouts']
BUDGET = {'quick': 300, 'thorough': 850}
REQ = [b'POST /one HTTP/1.1\r\nContent-Length:%d\r\n\r\n', b'POST /two HTTP/1.1\r\ncontent-length: %d\r\nx:y:z\r\n\r\n']
MB3 = 3000000

def plan(tier):
    q = tier == 'quick'
    return [dict(name='server', fn='server_in', params=dict(cuts=2, lens=[0, 1, 3] if q else [0, 1, 2, 3, 5], window=4 if q else 12), covers=['coalesced', 'partly', 'full']),
            dict(name='server-anywhere', fn='server_in', params=dict(cuts=2 if q else 3, lens=[2], window=None if q else 14, hows=['all']), covers=['coalesced', 'full']),
            dict(name='single-bytes', fn='server_in', params=dict(cuts=0, lens=[0, 1, 3], one=True), covers=['full']),
            dict(name='upload', fn='upload', params=dict(cuts=2 if q else 3), covers=['large', 'empty']),
            dict(name='client', fn='client_in', params=dict(cuts=2, lens=[0, 1, 3] if q else [0, 1, 2, 3, 5], window=4 if q else 12), covers=['empty', 'full']),
            dict(name='client-anywhere', fn='client_in', params=dict(cuts=2, lens=[2], window=None), covers=['full']),
            dict(name='download', fn='download', params=dict(cuts=2 if q else 3), covers=['large', 'empty']),
            dict(name='short-sends', fn='short', params=dict(n=2 if q else 3), covers=['request', 'upload', 'answer', 'file']),
            dict(name='server-eof', fn='server_eof', params=dict(), covers=['head', 'body']),
            dict(name='client-eof', fn='client_eof', params=dict(), covers=['head', 'body']),
            dict(name='lock', fn='lock', params=dict(), covers=['inside'])]

def cuts(h, n, lo, hi):
    out = []
    for i in range(n):
        c = h.int('cut', lo, hi)
        if out: h.assume(out[-1] <= c)
        out.append(c)
    return out

def near(h, cs, window, head, body):
    """Only cuts from `window` bytes before the end of the head to `window` bytes behind the body."""
    if window is None: return
    for c in cs: h.assume(c >= head - window); h.assume(c <= head + body + window)

def mkrequest(h, i, body): return (REQ[i] % len(body)) + body

def read(h, rq, how):
    """What a handler does with a body; (bytes, all of it)."""
    if how == 'all': return rq.body.read_all(), True
    if how == 'none': return b'', False
    n = h.pick('portion', [1, 2, 4])
    if how == 'some':
        r = rq.body.read(n)
        return (b'' if r is None else r), False
    out = b''
    while True:
        r = rq.body.read(n)
        if r is None: return out, True
        h.check(len(r) <= n, 'more bytes than asked for')
        out = out + r

def answers(h, data):
    """The answers in a stream, taken apart independently of the code under test."""
    out = []
    while len(data):
        head, data = data.split(b'\r\n\r\n', 1)
        lines = head.split(b'\r\n')
        h.check(lines[0] == b'HTTP/1.1 200 OK', 'status line')
        n = int([l for l in lines if l.lower().startswith(b'content-length:')][0].split(b':')[1])
        out.append((lines, data[:n])); data = data[n:]
    return out

def server_in(h, cuts, lens, one=False, window=None, hows=('all', 'portions', 'some', 'none')):
    b = [h.blob('b1', lens), h.blob('b2', lens[:2])]
    data = mkrequest(h, 0, b[0]) + mkrequest(h, 1, b[1])
    P = h.proc('server')
    hs = P.mod('bversion.http.http_server')
    got = []
    hows = [h.pick('how', list(hows)), 'all']
    def handler(rq, ctx):
        i = len(got)
        h.check(i < 2, 'more requests than were sent')
        h.check(rq.uri == ['/one', '/two'][i], 'a request does not start where the one before ended')
        got.append(read(h, rq, hows[i]))
        return hs.Responce({'n': str(i)}, b'answer%d' % i)
    cs = globals()['cuts'](h, cuts, 1, len(data) - 1) if cuts else []
    near(h, cs, window, len(data) - len(b[0]) - len(mkrequest(h, 1, b[1])), len(b[0]))
    if cs and cs[0] > len(REQ[0]) + len(b[0]): h.cover('coalesced')
    s = wire.Sock(h, data, cs, one=one)
    r = wire.serve(h, P, [s], handler)
    h.check(len(got) == 2 and len(s.data) == 0, 'a request got lost')
    h.check(s.closed, 'the connection stays open')
    for i in range(2):
        d, full = got[i]
        h.obs('body', d)
        if full: h.check(d == b[i], 'the body is not what was sent'); h.cover('full')
        else: h.check(len(d) <= len(b[i]) and d == b[i][:len(d)], 'the body does not begin as it was sent'); h.cover('partly')
    a = answers(h, s.out)
    h.check([x[1] for x in a] == [b'answer0', b'answer1'], 'the answers are not what the handler gave')

def upload(h, cuts):
    """A file and then a JSON request, sent by a real client, arriving in pieces."""
    c = h.content('c', 2, (0, MB3))
    h.write(h.p('/wc/f'), c)
    rqs = wire.requests(h, [lambda k: k.send_file('push_file', {'path': '/a:b'}, h.p('/wc/f')), lambda k: k.request('next', {'k': 'v'}, {'x': 1})])
    if len(c) > 1000000: h.cover('large')
    if len(c) == 0: h.cover('empty')
    n = len(rqs[0])
    at = [h.int('cut', 1, 4000000) for i in range(cuts)]
    # one cut anywhere, the others behind the head
    # one cut around the end of the head, the others in or right behind the body
    h.assume(at[0] > n - len(c) - 4); h.assume(at[0] < n - len(c) + 2)
    for x in at[1:]: h.assume(x > n - len(c)); h.assume(x < n + 2)
    s = wire.Sock(h, rqs[0] + rqs[1], at)
    P = h.proc('server')
    hs = P.mod('bversion.http.http_server')
    got = []
    def handler(rq, ctx):
        got.append(rq.uri)
        if len(got) == 1:
            h.check(rq.headers['path'] == '/a:b', 'a header changed')
            h.write(h.p('/srv/got'), rq.body.read_all())
        else: h.check(rq.get_json() == {'x': 1}, 'the second body is not what was sent')
        return hs.Responce({}, b'')
    wire.serve(h, P, [s], handler)
    h.check(got == ['/push_file', '/next'], 'a request got lost')
    h.check(h.read(h.p('/srv/got')) == c, 'the file is not what was sent')

def respond(h, bodies, served=None):
    """The bytes with which a real server answers: one stream per answer."""
    P = h.proc('responder')
    hs = P.mod('bversion.http.http_server')
    n = [0]; outs = []
    data = [mkrequest(h, 0, b'') for b in bodies]
    s = wire.Sock(h, b'')
    def onempty(sk):
        if sk.out: outs.append(sk.out); sk.out = b''
        if data: sk.data = data.pop(0)
    s.onempty = onempty
    def handler(rq, ctx):
        i = n[0]; n[0] += 1
        return hs.Responce({'status': 'ok', 'i': str(i)}, bodies[i] if not isinstance(bodies[i], tuple) else hs.ServeFile(bodies[i][0]))
    wire.serve(h, P, [s], handler)
    P.end()
    return outs

def client(h, outs, cs, one=False):
    """A real client whose answers arrive in pieces."""
    P = h.proc('client')
    s = wire.Sock(h, b'', cs, one=one)
    outs = list(outs)
    def onempty(sk):
        if outs and len(sk.out): sk.data = outs.pop(0); sk.out = b''
    s.onempty = onempty
    h.world.sock_factory = lambda proc: s
    c = P.run(P.mod('bversion.http.client_http_request').client_http_request, 'http://srv')
    return P, c, s

def client_in(h, cuts, lens, window):
    b = [h.blob('b1', lens), h.blob('b2', lens[:2])]
    outs = respond(h, b)
    h.check(len(outs) == 2, 'an answer got lost')
    cs = globals()['cuts'](h, cuts, 1, len(outs[0]))
    near(h, cs, window, len(outs[0]) - len(b[0]), len(b[0]))
    P, c, s = client(h, outs, cs)
    for i in range(2):
        d, hd = P.run(c.request, 'x', {})
        h.obs('body', d)
        h.check(d == b[i], 'the answer is not what was sent')
        h.check(hd['i'] == str(i) and hd['status'] == 'ok', 'the headers are not those of the answer')
        h.cover('full' if len(d) else 'empty')

def download(h, cuts):
    h.mkdirs(h.p('/wc'))
    c = h.content('c', 2, (0, MB3))
    h.write(h.p('/srv/f'), c)
    outs = respond(h, [(h.p('/srv/f'),), b'next'])
    h.check(len(outs) == 2, 'an answer got lost')
    if len(c) > 1000000: h.cover('large')
    if len(c) == 0: h.cover('empty')
    n = len(outs[0])
    at = [h.int('cut', 1, 4000000) for i in range(cuts)]
    h.assume(at[0] > n - len(c) - 4); h.assume(at[0] < n - len(c) + 2)
    for x in at[1:]: h.assume(x >= n - len(c)); h.assume(x <= n)
    P, k, s = client(h, outs, at)
    w, hd = P.run(k.request, 'pull_file', {}, gen=True)
    P.run(w, h.p('/wc/got'))
    h.check(h.read(h.p('/wc/got')) == c, 'the file is not what was sent')
    d, hd = P.run(k.request, 'x', {})
    h.check(d == b'next', 'the next answer is not what was sent')

def short(h, n):
    """The transport takes only part of what it is given."""
    what = h.pick('what', ['request', 'upload', 'answer', 'file'])
    h.cover(what)
    c = h.content('c', 2, (1, MB3))
    if what in ('request', 'upload'):
        h.write(h.p('/wc/f'), c)
        P = h.proc('client')
        s = wire.Sock(h, b'', short=n)
        def onempty(sk): raise wire.Stop()
        s.onempty = onempty
        h.world.sock_factory = lambda proc: s
        k = P.run(P.mod('bversion.http.client_http_request').client_http_request, 'http://srv')
        try:
            if what == 'upload': P.run(k.send_file, 'u', {}, h.p('/wc/f'))
            else: P.run(k.request, 'u', {}, {'some': 'data', 'n': 123456})
        except wire.Stop: pass
        head, body = s.out.split(b'\r\n\r\n', 1)
        if what != 'upload' and type(body) is bytes: same = body.strip().endswith(b'}') and json.loads(body) == {'some': 'data', 'n': 123456}
        else: same = body == (c if what == 'upload' else b'{"some": "data", "n": 123456}')
        h.check(same, 'bytes of a request got lost in sending')
    else:
        h.write(h.p('/srv/f'), c)
        P = h.proc('server')
        hs = P.mod('bversion.http.http_server')
        text = b'0123456789' * 900
        s = wire.Sock(h, mkrequest(h, 0, b''), short=n)
        wire.serve(h, P, [s], lambda rq, ctx: hs.Responce({'status': 'ok'}, hs.ServeFile(h.p('/srv/f')) if what == 'file' else text))
        head, body = s.out.split(b'\r\n\r\n', 1)
        h.check(body == (c if what == 'file' else text), 'bytes of an answer got lost in sending')

def server_eof(h):
    """The stream ends anywhere."""
    b = [h.blob('b1', [1, 3]), h.blob('b2', [2])]
    data = mkrequest(h, 0, b[0]) + mkrequest(h, 1, b[1])
    end = h.int('end', 0, len(data) - 1)
    first = len(data) - len(mkrequest(h, 1, b[1]))
    cut = h.int('cut', 1, len(data) - 1)
    h.assume(cut < end)
    h.assume(cut == 1 or cut == end - 1 or cut == first)
    P = h.proc('server')
    hs = P.mod('bversion.http.http_server')
    got = []; freed = []; how = h.pick('how', ['all', 'portions', 'none'])
    def handler(rq, ctx):
        def free(): freed.append(1)
        ctx.shutdown_handler = free
        i = len(got)
        got.append(None)
        got[i] = read(h, rq, how)
        return hs.Responce({}, b'done')
    s = wire.Sock(h, data[:end], [cut], reset=h.flag('reset'))
    r = wire.serve(h, P, [s], handler)
    h.check(len(r) == 1 and r[0].exc is not None, 'a connection that ends early ends without an error')
    h.check(s.closed, 'the connection stays open')
    if got: h.check(len(freed) == 1, 'the end of the connection is not handled')
    for i, g in enumerate(got):
        if g is not None and g[1]: h.check(g[0] == b[i], 'a truncated body is taken for the whole')
    whole = 0 if end < first else 1
    done = len(answers(h, s.out))
    h.check(done <= whole, 'a truncated request is answered')
    h.check(done == whole, 'a complete request is not answered')
    h.cover('body' if len(got) > done else 'head')

def client_eof(h):
    h.mkdirs(h.p('/wc'))
    b = h.blob('b1', [1, 3])
    c = h.content('c', 2, (1, MB3))
    f = h.flag('file')
    h.write(h.p('/srv/f'), c)
    outs = respond(h, [(h.p('/srv/f'),) if f else b])
    n = len(outs[0])
    end = h.int('end', 0, 4000000)
    h.assume(end < n)
    cut = h.int('cut', 1, 4000000)
    h.assume(cut < n)
    if not f: h.assume(cut < 3 or cut == end - 1)
    else: h.assume(cut > n - len(c))
    P, k, s = client(h, [outs[0][:end]], [cut])
    s.reset = h.flag('reset')
    def go():
        if not f: return k.request('x', {})
        w, hd = k.request('x', {}, gen=True)
        h.cover('body')
        w(h.p('/wc/got'))
    r = P.attempt(go)
    h.check(not r.ok, 'an answer that ends early is taken for the whole')
    h.cover('head')

def lock(h):
    """The connection of a lock holder ends anywhere in a request."""
    s = lib.Server(h)
    k = s.connect(); t = s.session(k, 'repo', 'u')
    rqs = wire.requests(h, [lambda c: c.request('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': 'root'}, {}),
                            lambda c: c.request('push_file', {'session_token': t, 'repository': 'repo', 'path': '/a'}, {'some': 'content'})])
    end = h.int('end', len(rqs[0]), len(rqs[0]) + len(rqs[1]))
    h.assume(end - len(rqs[0]) < 4 or end > len(rqs[0]) + len(rqs[1]) - 30)
    sk = wire.Sock(h, (rqs[0] + rqs[1])[:end], reset=h.flag('reset'))
    r = wire.serve(h, s.P, [sk], s.mod.endpoint)
    a = answers(h, sk.out)
    h.check(len(a) > 0 and b'status:ok' in [l.replace(b' ', b'') for l in a[0][0]], 'no commit begun')
    h.cover('inside')
    k2 = s.connect()
    hd, _ = k2.call('begin_commit', {'session_token': t, 'repository': 'repo', 'user': 'u', 'previous_revision': 'root'}, b'{}')
    h.check(hd['status'] == 'ok', 'the write lock is held by a connection that is gone')
    import json
    part = json.loads(_)['partial_commit']
    whole = end == len(rqs[0]) + len(rqs[1])
    h.check(len(part) == (1 if whole else 0), 'a truncated upload is taken for the whole file')
