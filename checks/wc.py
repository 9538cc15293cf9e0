"""Working copies: set-up, server and local changes, and what an update must make of them."""
import checks.lib as lib

def under(q, p): return q.startswith(p + '/')
def consistent(files):
    """No path is both a file and a directory."""
    return not any(under(q, p) for p in files for q in files)

class Copy:
    """A repository with one version, a working copy that holds it, and bookkeeping of what changed on either side since."""
    def __init__(self, h, base, srv=None, timed=False, **kw):
        self.h = h; self.timed = timed
        self.s = srv or lib.Server(h)
        self.v1 = self.s.version(base)
        self.s.start()
        self.base = dict(base); self.head = dict(base); self.local = dict(base)
        self.touched = set()        # paths changed, created or deleted locally
        self.c = lib.Client(h, self.s, **kw)
        r = self.c.update()
        h.check(r.ok, 'the first update fails: ' + r.text())
        h.check(lib.same(self.c.files(), base), 'the first update does not bring in the version')
        self.v2 = self.v1
    def server(self, put=None, delete=()):
        put = put or {}
        if not put and not delete: return
        self.v2 = self.s.version(put, delete)
        for q in delete: self.head.pop(q)
        self.head.update(put)
        self.s.start()
    def write(self, q, data):
        if self.timed: lib.edit(self.h, self.c.wc + q, data)      # at any time
        else: self.c.write(q, data)
        self.local[q] = data; self.touched.add(q)
    def rm(self, q, dirs=False):
        self.c.rm(q); self.local.pop(q); self.touched.add(q)
        if q not in self.base: self.touched.discard(q)
        d = q.rpartition('/')[0]
        while dirs and d and not self.h.listdir(self.c.wc + d):
            self.h.rmtree(self.c.wc + d); d = d.rpartition('/')[0]
    # ------------------------------------------------------------ expectations
    def differs(self, a, b, q):
        return (q in a) != (q in b) or (q in a and a[q] != b[q])
    def paths(self): return sorted(set(self.base) | set(self.head) | set(self.local))
    def server_changed(self): return [q for q in self.paths() if self.differs(self.base, self.head, q)]
    def conflicts(self):
        """{path: (client, server)} changed on both sides, deletions on both sides excepted."""
        out = {}
        for q in self.server_changed():
            if q in self.touched and (q in self.local or q in self.head):
                out[q] = ('Changed' if q in self.local else 'Deleted', 'Changed' if q in self.head else 'Deleted')
        return out
    def merged(self, to_server=()):
        """What the working copy must hold after an update; conflicts in to_server are resolved to the server, others to the client."""
        out = {}
        for q in self.paths():
            src = self.local if q in self.touched and q not in to_server else self.head
            if q in src: out[q] = src[q]
        return out
    def status(self, to_server=()):
        """The local changes that remain after an update."""
        out = {}
        for q in self.touched:
            if q in to_server: continue
            if q in self.local: out[q] = 'changed' if q in self.base else 'new'
            elif q in self.head: out[q] = 'deleted'
        return out
