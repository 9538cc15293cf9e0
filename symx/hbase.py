"""Harness API shared by symbolic runs (harness.SymH) and real replays (real.RealH)."""
import hashlib, json

class Violation(BaseException):
    def __init__(self, msg, key=None): self.msg = msg; self.key = key

def forget(e):
    """The frames of a failed call are gone, with what only they referred to."""
    import traceback
    while e is not None: traceback.clear_frames(e.__traceback__); e = e.__context__

class Outcome:
    """How a command of the code under test ended: ok / exit (SystemExit) / exc / crash."""
    def __init__(self, kind, value=None, exc=None): self.kind = kind; self.value = value; self.exc = exc
    ok = property(lambda s: s.kind == 'ok')
    crashed = property(lambda s: s.kind == 'crash')
    def text(self):
        if self.exc is None: return self.kind
        a = self.exc.args[0] if self.exc.args else ''
        return '%s: %s %s' % (self.kind, type(self.exc).__name__, a if isinstance(a, (str, int)) else type(a).__name__)
    def __repr__(self): return self.text()

def gen(ident, size):
    """Concrete bytes of the opaque content `ident`: pairwise distinct, never valid UTF-8 and so never a literal of a harness."""
    b = hashlib.sha256(b'content %d' % ident).digest()
    return (bytes([0x80 + ident % 64]) + b * (size // 32 + 1))[:size]

class Base:
    """Names of inputs, observations, and the operations defined the same way in both modes."""
    def _init(self):
        self._names = {}; self.obslog = []; self.nchecks = 0; self.covers = set(); self.notes = []
        self._contents = {}
    def _name(self, n):
        k = self._names.get(n, 0); self._names[n] = k + 1
        return n if k == 0 else '%s~%d' % (n, k)
    def pick(self, name, options):
        return options[self.choose(name, len(options))]
    def fail(self, msg, key=None): self.check(False, msg, key)
    def cover(self, name): self.covers.add(name)
    def p(self, path=''): return self.root + path
    def alike(self, c, n=0):
        """A fixed content whose SHA-256 starts with the same two digits as that of the literal c (the n-th such)."""
        want = hashlib.sha256(c).digest()[0]; i = 0
        while True:
            b = b'\xfe alike %d' % i; i += 1
            if hashlib.sha256(b).digest()[0] == want and b != c:
                if n == 0: return b
                n -= 1
    def arm(self, proc, name='crash_at', limit=None):
        """From now on `proc` dies before its crash_at-th mutating primitive (or never)."""
        c = self.int(name, 0, 10**6 if limit is None else limit)
        w = self.world
        w.ticks = 0; w.crash_proc = proc
        w.crash_decide = lambda n: bool(c == n)
    def disarm(self):
        w = self.world
        w.crash_proc = None; w.crash_decide = None
    def crashed(self, proc): return proc.dead
    def advance(self, s): self.world.advance(s)

def canon(x):
    """JSON-able canonical form used to compare observations of symbolic and real runs."""
    if isinstance(x, bytes):
        return 'b:' + (x.hex() if len(x) <= 40 else '%d:%s' % (len(x), hashlib.sha256(x).hexdigest()))
    if isinstance(x, dict): return {'{}': sorted([[canon(k), canon(v)] for k, v in x.items()], key=lambda p: json.dumps(p, sort_keys=True))}
    if isinstance(x, (set, frozenset)): return {'set': sorted((canon(v) for v in x), key=lambda p: json.dumps(p, sort_keys=True))}
    if isinstance(x, (list, tuple)): return [canon(v) for v in x]
    if isinstance(x, float): return round(x, 6)
    if x is None or isinstance(x, (str, int, bool)): return x
    return type(x).__name__
