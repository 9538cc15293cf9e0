"""Stand-ins for sockets: the bytes that arrive, cut anywhere; the bytes that are sent, taken in parts."""
class Stop(BaseException): pass

class Sock:
    def __init__(self, h, data=b'', cuts=(), one=False, short=0, reset=False):
        self.h = h; self.data = data; self.cuts = list(cuts); self.pos = 0; self.one = one
        self.out = b''; self.short = short; self.closed = False; self.eofs = 0; self.reset = reset
        self.onempty = None
        self.host = 'srv'
    # ---- what the code under test uses
    def setsockopt(self, *a): pass
    def settimeout(self, *a): pass
    def setblocking(self, *a): pass
    def gettimeout(self): return 300
    def getpeername(self): return ('10.0.0.1', 4000)
    def connect(self, addr): pass
    def shutdown(self, how=None): pass
    def fileno(self): return 77
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def recv(self, n, flags=0):
        if self.closed: raise OSError('closed')
        if not (n > 0): return b''
        if len(self.data) == 0 and self.onempty is not None: self.onempty(self)
        if len(self.data) == 0:
            if self.reset: raise ConnectionResetError('reset')
            self.eofs += 1
            if self.eofs > 30: self.h.fail('reads from a closed connection forever')
            return b''
        k = n
        if self.one: k = 1
        for c in self.cuts:
            if c > self.pos and c - self.pos < k: k = c - self.pos
        if k > len(self.data): k = len(self.data)
        out = self.data[:k]
        self.data = self.data[k:]
        self.pos = self.pos + len(out)
        return out
    def recv_into(self, buf, n=0, flags=0):
        out = self.recv(n or len(buf))
        buf[:len(out)] = out
        return len(out)
    def put(self, data): self.out = self.out + data
    def send(self, data, flags=0):
        if self.closed: raise OSError('closed')
        if len(data) == 0: return 0
        if self.short > 0:
            self.short -= 1
            k = self.h.int('sent', 1, 4000000)
            if k < len(data):
                self.put(data[:k]); return k
        self.put(data)
        return len(data)
    def sendall(self, data, flags=0):
        if self.closed: raise OSError('closed')
        self.put(data)
    def sendfile(self, f, offset=0, count=None):
        if offset: f.seek(offset)
        d = f.read() if count is None else f.read(count)
        self.put(d)
        return len(d)

class Listener:
    """The listening socket: hands over the given connections, then ends the server."""
    n = 0
    def __init__(self, socks): self.socks = list(socks); self.n = 0
    def bind(self, *a): pass
    def listen(self, *a): pass
    def setsockopt(self, *a): pass
    def settimeout(self, *a): pass
    def accept(self):
        if not self.socks: raise KeyboardInterrupt()
        self.n += 1
        return self.socks.pop(0), ('10.0.0.1', 4000 + self.n)
    def close(self): pass
    def shutdown(self, *a): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

def serve(h, P, socks, handler):
    """Runs the real HTTPServer on the given connections, one after another; the outcome of each connection's thread."""
    res = []
    def runner(proc, f, a, k):
        Listener.n += 1
        name = 'wire%d' % Listener.n
        r = P.attempt(f, *a, thread=name, **k)
        res.append(r)
        P.end_thread(name)
    h.world.sock_factory = lambda proc: Listener(socks)
    h.world.thread_runner = runner
    hs = P.mod('bversion.http.http_server')
    try: P.run(hs.HTTPServer, '0.0.0.0', 80, handler)
    except KeyboardInterrupt: pass
    h.world.thread_runner = None; h.world.sock_factory = None
    return res

def requests(h, build):
    """The bytes a real client sends for the requests that build(client_http_request) makes."""
    P = h.proc('sender')
    s = Sock(h)
    h.world.sock_factory = lambda proc: s
    m = P.mod('bversion.http.client_http_request')
    out = []
    def onempty(sk): raise Stop()
    s.onempty = onempty
    def go():
        c = m.client_http_request('http://srv')
        for b in build:
            s.out = b''
            try: b(c)
            except Stop: pass
            out.append(s.out)
    P.run(go)
    h.world.sock_factory = None
    P.end()
    return out
