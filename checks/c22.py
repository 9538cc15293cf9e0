"""C22: header values survive the wire unchanged."""
import checks.wire as wire
BOUNDS = {'quick': 'two headers per message; values of 0 to 3 symbolic characters out of all of Unicode (white space at either end and single CR or LF included; not CR LF), names of 1 or 2 symbolic token characters in '
                   'any case, a symbolic request path; first lines of up to 5 symbolic bytes that do or do not have three parts',
          'thorough': 'values of up to 5 characters, first lines of up to 8 bytes'}
ASSUMES = ['values are text that UTF-8 can encode (no lone surrogates)']
OUTSIDE = ['header values with CR LF (refused by the client, see C42)']
NAME = ((0x41, 0x5a), (0x61, 0x7a), (0x2d, 0x2d), (0x5f, 0x5f))
ANY = ((0, 0xd7ff), (0xe000, 0x10ffff))
WS = ' \t\n\r\x0b\x0c'
FIRST = ((0x20, 0x20), (0x2f, 0x2f), (0x41, 0x5a), (0x30, 0x39), (0x3a, 0x3a), (9, 9))

def plan(tier):
    n = [0, 1, 2, 3] if tier == 'quick' else [0, 1, 2, 3, 4, 5]
    m = 5 if tier == 'quick' else 8
    return [dict(name='request', fn='request', params=dict(n=n), covers=['colon', 'unicode', 'space']),
            dict(name='answer', fn='answer', params=dict(n=n), covers=['colon', 'unicode', 'space']),
            dict(name='names', fn='names', params=dict(), covers=['upper']),
            dict(name='path', fn='path', params=dict(n=n[1:]), covers=['colon']),
            dict(name='first-line', fn='first', params=dict(n=list(range(m + 1))), covers=['good', 'bad'])]

def value(h, name, n):
    v = h.text(name, n, ANY)
    h.assume('\r\n' not in v)
    if len(v) and v[-1] in WS: h.cover('space')
    if ':' in v: h.cover('colon')
    if any(c > '\u07ff' for c in v): h.cover('unicode')
    return v

def token(h, name, n):
    v = h.text(name, n, NAME)
    return v

def through(h, rqs):
    """What a server handler sees."""
    P = h.proc('server')
    hs = P.mod('bversion.http.http_server')
    seen = []
    def handler(rq, ctx):
        seen.append((rq.uri, dict(rq.headers), rq.body.read_all()))
        return hs.Responce({}, b'')
    s = wire.Sock(h, rqs)
    wire.serve(h, P, [s], handler)
    return seen

def request(h, n):
    a = value(h, 'a', n); b = value(h, 'b', n[:2])
    rq = wire.requests(h, [lambda c: c.request('act', {'path': a, 'Second': b}, None)])[0]
    seen = through(h, rq)
    h.check(len(seen) == 1, 'the request got lost')
    uri, hd, body = seen[0]
    h.obs('got', [hd['path'], hd['second']])
    h.check(uri == '/act' and body == b'{}', 'the request changed')
    h.check(hd['path'] == a and hd['second'] == b, 'a header value changed')
    h.check(hd['host'] == 'srv' and hd['content-type'] == 'application/json' and hd['content-length'] == '2', 'other headers changed')

def reply(h, headers, body=b'x'):
    """What a client sees of an answer with these headers."""
    P = h.proc('server')
    hs = P.mod('bversion.http.http_server')
    s = wire.Sock(h, b'POST /a HTTP/1.1\r\ncontent-length:0\r\n\r\n')
    wire.serve(h, P, [s], lambda rq, ctx: hs.Responce(headers, body))
    P = h.proc('client')
    k = wire.Sock(h, s.out)
    h.world.sock_factory = lambda proc: k
    c = P.run(P.mod('bversion.http.client_http_request').client_http_request, 'http://srv')
    return P.run(c.request, 'x', {})

def answer(h, n):
    a = value(h, 'a', n); b = value(h, 'b', n[:2])
    d, hd = reply(h, {'status': a, 'file_info_json': b})
    h.obs('got', [hd['status'], hd['file_info_json']])
    h.check(d == b'x', 'the body changed')
    h.check(hd['status'] == a and hd['file_info_json'] == b, 'a header value changed')
    h.check(hd['content-length'] == '1', 'other headers changed')

def names(h):
    """Names are recovered in any case."""
    n = token(h, 'name', [1, 2])
    if n != n.lower(): h.cover('upper')
    rq = wire.requests(h, [lambda c: c.request('act', {n: 'v:1'}, None)])[0]
    uri, hd, body = through(h, rq)[0]
    h.check(hd[n.lower()] == 'v:1', 'a header of a request is not found by its name')
    d, hd = reply(h, {n: 'v:1'})
    h.check(hd[n.lower()] == 'v:1', 'a header of an answer is not found by its name')
    # as text and as bytes
    d, hd = reply(h, {'k': b'v:2', b'l': 'w'})
    h.check(hd['k'] == 'v:2' and hd['l'] == 'w', 'a header given as bytes changed')

def path(h, n):
    u = h.text('url', n, ANY)
    h.assume(all(c not in WS for c in u))
    if ':' in u: h.cover('colon')
    rq = wire.requests(h, [lambda c: c.request(u, {}, {})])[0]
    seen = through(h, rq)
    h.check(len(seen) == 1 and seen[0][0] == '/' + u, 'the path of a request changed')
    h.check(seen[0][1]['content-length'] == '2', 'the headers changed with the path')

def first(h, n):
    l = h.text('line', n, FIRST).encode('utf8')
    parts = l.split(b' ')
    ok = len(parts) == 3
    P = h.proc('p')
    m = P.mod('bversion.http.http_common')
    r = P.attempt(m.parse_http_request_preamble, l + b'\r\nContent-Length: 3\r\nK: v:w')
    h.check(r.ok == ok, 'a malformed request line is accepted' if r.ok else 'a request line is refused')
    r2 = P.attempt(m.parse_http_responce_preamble, l + b'\r\nContent-Length: 3\r\nK: v:w')
    h.check(r2.ok == ok, 'a malformed status line is accepted' if r2.ok else 'a status line is refused')
    h.cover('good' if ok else 'bad')
    if ok:
        q = r.value
        h.check(q['method'].encode('utf8') == parts[0] and q['path'].encode('utf8') == parts[1], 'the request line changed')
        h.check(q['headers'] == {'content-length': '3', 'k': 'v:w'}, 'the headers changed')
        q = r2.value
        h.check(q['protocol'] == parts[0] and q['status'][0] == parts[1] and q['headers'] == {'content-length': '3', 'k': 'v:w'}, 'the status line changed')
    elif len(l):
        # a server does not act on it
        h.check(len(through(h, l + b'\r\nContent-Length: 0\r\n\r\n')) == 0, 'a malformed request is acted upon')
