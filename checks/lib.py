"""A server and clients of the code under test, joined below HTTPClient: requests of a real client process reach the real endpoint of a
real server process directly.  (The bytes on the wire are the business of C21, C22 and C08.)"""
import json, base64

PUB = 'mF7pCyklcIoNAOkfo1YR7O/Fb/Z0bJJ1j/lATtkKQ6c='
PRIV = 'bkUg07WLoxKcsWaupuVIyyMrVyWMdX8q8Zvta+wwKi6kmF7pCyklcIoNAOkfo1YR7O/Fb/Z0bJJ1j/lATtkKQ6c='

# two further key pairs, with unencrypted private keys
PUB1 = 'iojj3XQJ8ZX9UtstPLpdcspnCb8dlBIb83SIAbQPb1w='
PRIV1 = 'bgEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBiojj3XQJ8ZX9UtstPLpdcspnCb8dlBIb83SIAbQPb1w='
PUB2 = 'gTl3Dqh9F19Wo1Rmw0x+zMuNipG07jeiXfYPW4/Js5Q='
PRIV2 = 'bgICAgICAgICAgICAgICAgICAgICAgICAgICAgICAgICgTl3Dqh9F19Wo1Rmw0x+zMuNipG07jeiXfYPW4/Js5Q='

class Closed(ConnectionError): pass

def body(P, data, during=None):
    """The body of a message as the code under test reads it; all of it has arrived, or (during) the second half
    arrives after something else has happened."""
    left = [data]; st = {'reads': 0}
    def reader(n):
        d = left[0]; st['reads'] += 1
        if during is not None:
            if st['reads'] == 1 and n > len(data) // 2: n = len(data) // 2
            if st['reads'] == 2: during()
        if n < len(d): left[0] = d[n:]; return d[:n]
        left[0] = b''; return d
    try: return P.mod('bversion.http.http_common').read_body(reader, len(data), b'')
    except (AttributeError, TypeError): return Body(reader, len(data))

class Body:
    """Should read_body be built differently."""
    def __init__(self, reader, n): self.reader = reader; self.n = n
    def read(self, length=None):
        d = self.reader(self.n if length is None else length)
        return d if len(d) else None
    def read_all(self): return self.reader(self.n)
    def dump(self): self.reader(self.n)

def wire(v):
    """What a header value is after the wire."""
    if isinstance(v, (bytes, bytearray)): v = v.decode('utf8')
    if not isinstance(v, str): raise TypeError('header value of type ' + type(v).__name__)
    return v

class Conn:
    """One connection to the server: its thread, its context."""
    n = 0
    def __init__(self, srv, addr):
        self.srv = srv; self.addr = addr; self.life = srv.P; self.open = True
        srv.nconn += 1
        self.thread = 'conn%d' % srv.nconn
        self.ctx = srv.P.run(srv.http.ConnectionContext)
    def call(self, action, headers, data=b'', during=None):
        """(headers, body) of the response; Closed when the server fails or dies."""
        srv = self.srv
        if not self.open or self.life.dead or self.life is not srv.P: raise Closed('connection closed')
        hd = {k.lower(): wire(v) for k, v in headers.items()}
        rq = srv.http.Request(self.addr, 4000, '/' + action, hd, body(srv.P, data, during))
        r = srv.P.attempt(srv.mod.endpoint, rq, self.ctx, thread=self.thread)
        srv.last = r
        if r.ok:
            rs = r.value
            out = rs.body
            if isinstance(out, srv.http.ServeFile):
                q = out.path
                if not srv.h.isfile(q): self.close(); raise Closed('file to serve is missing')
                out = srv.h.read(q)
            return {k.lower(): wire(v) for k, v in rs.headers.items()}, out
        self.close()
        raise Closed('server: ' + r.text())
    def close(self):
        """The server notices the end of the connection."""
        if not self.open: return
        self.open = False
        if not self.life.dead and self.life is self.srv.P:
            # the handler is looked up when the connection ends, as the connection thread does
            self.life.attempt(lambda: self.ctx.shutdown_handler(), thread=self.thread)
            if not self.life.dead: self.life.end_thread(self.thread)

def give(parts, n):
    """What a recv(n) gets of the parts."""
    if not parts: return b''
    out = parts[0][:n]; parts[0] = parts[0][n:]
    if parts[0] == b'': del parts[0]
    return out

class Link:
    """A client's socket: what it sends is served, as bytes, by the real HTTPServer when the client waits for an answer."""
    def __init__(self, client): self.me = client; self.conn = None; self.out = []; self.data = []; self.closed = False
    def setsockopt(self, *a): pass
    def settimeout(self, *a): pass
    def connect(self, addr):
        self.conn = self.me.srv.connect(self.me.addr); self.me.conns.append(self.conn)
    def sendall(self, data, flags=0): self.out.append(data)
    def send(self, data, flags=0): self.out.append(data); return len(data)
    def recv(self, n, flags=0):
        if not self.data and self.out: self.exchange()
        return give(self.data, n)
    def exchange(self):
        import checks.wire as wire
        srv = self.me.srv; c = self.conn; h = srv.h
        sent = self.out; self.out = []
        if not c.open or c.life.dead or c.life is not srv.P: return
        class Sock(wire.Sock):
            """What is sent at once arrives at once."""
            parts = (); left = [d for d in sent if d != b'']
            def put(self, data): self.parts = self.parts + (data,)
            def recv(self, n, flags=0): return give(self.left, n)
        s = Sock(h); st = []
        def handler(rq, ctx):
            r = srv.P.attempt(srv.mod.endpoint, rq, c.ctx, thread=c.thread)
            srv.last = r
            if not r.ok: st.append(r); raise Closed('server: ' + r.text())
            return r.value
        w = h.world; old = (w.sock_factory, w.thread_runner)
        try: wire.serve(h, srv.P, [s], handler)
        finally: w.sock_factory, w.thread_runner = old
        self.data = [d for d in s.parts if d != b'']
        if st or not self.data or srv.P.dead: c.close()
        if self.me.P.dead: self.me.P.proc.check()
    def close(self): self.closed = True

class Server:
    def __init__(self, h, repos=('repo',), users=None, root='/srv', start=True, override=False):
        self.h = h; self.root = h.p(root); self.nconn = 0; self.last = None; self.override = override
        self.repos = list(repos)
        self.users = users or {'u': {'public_key': PUB, 'uses_repositories': list(repos)}}
        for r in self.repos: h.mkdirs(self.path(r))
        self.P = None
        if start: self.start()
    def path(self, repo='repo'): return self.root + '/' + repo
    def config(self):
        rs = {r: {'path': self.path(r)} for r in self.repos}
        if self.override:
            for r in self.repos: rs[r]['transient_db_path_override'] = self.db(r)
        return {'repositories': rs, 'users': self.users}
    def db(self, repo='repo'): return self.root + '/' + repo + '.transient' if self.override else self.path(repo) + '/server_transient.db'
    def start(self):
        """A new life of the server process."""
        if self.P is not None: self.P.end()
        self.P = self.h.proc('server')
        self.http = self.P.mod('bversion.http.http_server')
        self.mod = self.P.mod('bversion.server')
        self.P.run(self.mod.init_server, self.config())
        return self.P
    def connect(self, addr='10.0.0.1'): return Conn(self, addr)
    def session(self, conn, repo='repo', user='u', key=PRIV):
        import pysodium
        hd, _ = conn.call('begin_auth', {'repository': repo})
        sig = base64.b64encode(pysodium.crypto_sign_detached(hd['auth_token'], base64.b64decode(key)[1:]))
        hd, _ = conn.call('authenticate', {'client_version': '3', 'auth_token': hd['auth_token'], 'signature': sig, 'user': user, 'repository': repo})
        return hd['session_token']
    # ------------------------------------------------------------ direct access to a repository, outside any server
    def store(self, repo='repo', name='admin'):
        P = self.h.proc(name)
        vs = P.run(P.mod('bversion.storage.versioned_storage').versioned_storage, self.path(repo))
        sdb = P.mod('bversion.storage.server_db')
        P.run(lambda: sdb.get_server_db_instance_for_thread(self.path(repo)).db_init())
        return P, vs
    def version(self, put=None, delete=(), repo='repo', msg='m', by='u'):
        """A new version made directly in the storage; returns its id."""
        P, vs = self.store(repo)
        P.run(vs.begin, by, 'ip', 't')
        for q, c in (put or {}).items():
            self.h.write(self.path(repo) + '/up', c)
            P.run(vs.fs_put_from_file, self.path(repo) + '/up', {'path': q})
        if delete: P.run(vs.fs_delete, [{'path': q} for q in delete])
        v = P.run(vs.commit, msg, by)
        P.end()
        return v
    def head(self, repo='repo'):
        P, vs = self.store(repo, 'reader')
        try: return P.run(vs.get_head)
        finally: P.end()
    def files(self, version=None, repo='repo'):
        """{path: content} of a version, every object really read."""
        h = self.h
        P, vs = self.store(repo, 'reader')
        try:
            if version is None: version = P.run(vs.get_head)
            if version == 'root': return {}
            out = {}
            for q, i in P.run(vs.get_commit_files, version).items():
                out[q] = h.read(P.run(vs.get_file_directory_path, i['hash']) + '/' + i['hash'][2:])
                h.check(h.sha(out[q]) == i['hash'], 'a stored object does not hold the content of its name')
            return out
        finally: P.end()
    def history(self, repo='repo'):
        P, vs = self.store(repo, 'reader')
        try:
            v = P.run(vs.get_head); out = []
            while v != 'root':
                out.append(v)
                v = P.run(vs.read_commit_index_object, v)['parent']
            return out
        finally: P.end()

class Client:
    """A working copy and the client processes that work on it."""
    def __init__(self, h, srv, wc='/wc', user='u', key=PRIV, addr='10.0.0.1', repo='repo', made=False, exact=False):
        self.exact = exact      # its requests travel as bytes
        self.h = h; self.srv = srv; self.wc = h.p(wc); self.user = user; self.key = key; self.addr = addr; self.repo = repo
        self.P = None; self.c = None; self.token = None; self.conns = []; self.hook = None
        if made: return
        h.mkdirs(self.wc + '/.bvn')
        h.write(self.wc + '/.bvn/client_configuration.json', json.dumps({'server_domain': 'http://srv', 'user': user, 'repository': repo,
                'private_key': key}).encode('utf8'))
    def process(self, cwd=''):
        """A new client process, joined to the server."""
        self.end()
        P = self.P = self.h.proc('client')
        P.cwd = self.wc + cwd
        me = self
        class HTTPClient:
            def __init__(self): self.conn = None; self.rq = None
            def connect(self, host, port, tls=False):
                self.conn = me.srv.connect(me.addr); me.conns.append(self.conn)
            def send_headers(self, uri, headers):
                self.rq = (uri.split('/')[-1], dict(headers)); self.data = b''
            def send(self, data): self.data = self.data + data
            def read_responce(self):
                if me.hook is not None: me.hook(*self.rq)
                hd, out = self.conn.call(self.rq[0], self.rq[1], self.data)
                if P.dead: P.proc.check()
                return {'headers': hd, 'status': [b'200'], 'protocol': b'HTTP/1.1'}, body(P, out)
            def close(self): self.conn.close()
        if self.exact: self.h.world.sock_factory = lambda proc: Link(me)
        else: P.mod('bversion.http.http_client').HTTPClient = HTTPClient
        self.c = P.mod('bversion.client')
        return P
    def start(self, cwd=''):
        """A new client process after init() and authenticate(), as every command does first."""
        self.process(cwd)
        r = self.P.attempt(self._start)
        return r
    def _start(self):
        self.c.init()
        self.token = self.c.authenticate()
    def end(self):
        """The process is gone, and the server has noticed."""
        if self.P is not None: self.P.end()
        for k in self.conns: k.close()
        self.conns = []; self.P = None
    def cmd(self, fn, *a, **k):
        r = self.P.attempt(fn, *a, **k)
        return r
    def run(self, *argv, cwd='', inputs=()):
        """A command line of the client, from start to end of the process."""
        self.process(cwd)
        self.h.world.argv[:] = ['bvn'] + list(argv)
        self.h.world.inputs[:] = list(inputs)
        r = self.P.attempt(self.c.run)
        self.dead = self.P.dead
        self.end()
        return r
    def update(self, full=False, inputs=()): return self.run('update', *(['-f'] if full else []), inputs=inputs)
    def commit(self, msg='m'): return self.run('commit', '-m', msg)
    # ------------------------------------------------------------ state
    def files(self):
        """The user's files."""
        return self.h.tree(self.wc, ('/.bvn/', '/.bvn_ignore', '/.bvn_pull_ignore'))
    def manifest(self):
        P = self.h.proc('look')
        try:
            db = P.run(P.mod('bversion.storage.client_db').client_db, self.wc + '/.bvn/manifest.db')
            return P.run(db.get_manifest), P.run(db.get_system_meta)['have_revision']
        finally: P.end()
    def local_changes(self):
        """What the status command would show: {path: status}."""
        h = self.h
        P = h.proc('status')
        P.cwd = self.wc
        class NoHTTP:
            def connect(self, *a, **k): pass
        P.mod('bversion.http.http_client').HTTPClient = NoHTTP
        c = P.mod('bversion.client')
        try:
            P.run(c.init)
            return {q: v['status'] for q, v in P.run(c.find_local_changes).items()}
        finally: P.end()
    def write(self, path, data): self.h.write(self.wc + path, data)
    def rm(self, path): self.h.rm(self.wc + path)

def edit(h, path, data, name='time', past=()):
    """An edit by some tool which leaves any modification time but the one the file had."""
    old = h.mtime(path) if h.isfile(path) else None
    h.write(path, data)
    t = h.real(name, 0, 2 ** 31)
    if old is not None: h.assume(t != old)
    for x in past: h.assume(t != x)
    h.setmtime(path, t)

def same(a, b):
    """Two {path: content} dictionaries are equal."""
    return len(a) == len(b) and all(q in b and a[q] == b[q] for q in a)

def admin(h, repos, *argv, extra=None, name='admin'):
    """A run of the repository tool: (outcome, process).  repos: {name: details}."""
    P = h.proc(name)
    m = P.mod('bversion.repo_manager')
    P.run(m.init, dict({'repositories': repos}, **(extra or {})))
    h.world.argv[:] = ['bvn_repo'] + list(argv)
    return P.attempt(m.run), P
