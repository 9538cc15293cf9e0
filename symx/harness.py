"""Symbolic-mode harness."""
import hashlib, json, sqlite3, types
from fractions import Fraction
import z3
from . import core, values as V, rt, simfs, env_sym
from .hbase import Base, Outcome, forget, gen, canon
from .world import SimCrash
from .values import SymSeq, SymNum, NumStr, Rope, JsonText, Atom

class PHandle:
    """One process life of the code under test."""
    def __init__(self, h, name):
        self.h = h; self.name = name
        self.proc = env_sym.SymProc(h.world, name)
        self.cwd = h.root
    dead = property(lambda s: s.proc.dead)
    def mod(self, name): return self.proc.load(name)
    def run(self, fn, *a, **k):
        h = self.h; fs = h.world.fs; pr = self.proc
        old, oldt = fs.cwd, pr.thread
        q, h.world.quiet = h.world.quiet, 0
        fs.cwd = self.cwd; pr.thread = k.pop('thread', None) or pr.thread
        try: return fn(*a, **k)
        finally:
            self.cwd = fs.cwd; fs.cwd = old; pr.thread = oldt; h.world.quiet = q
    def attempt(self, fn, *a, **k):
        try: r = Outcome('ok', self.run(fn, *a, **k))
        except SimCrash: r = Outcome('crash')
        except SystemExit as e: r = Outcome('exit', exc=e)
        except Exception as e: r = Outcome('exc', exc=e)
        if core.cur.dead is not None: raise core.cur.dead
        if self.proc.dead: r = Outcome('crash')
        if r.kind == 'exc': r.tb = _tb(r.exc)
        if r.exc is not None: forget(r.exc)
        return r
    def end(self): self.proc.end()
    def end_thread(self, name): self.proc.end_thread(name)

def _tb(e):
    import traceback
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])

class SymH(Base):
    symbolic = True
    def __init__(self, eng, world):
        self._init()
        self.eng = eng; self.world = world; self.inputs = []      # (name, kind, expr or list)
        self.root = '/w'
        self.hp = env_sym.SymProc(world, 'harness')
        world.fs.root.ch['w'] = simfs.Dir(0.0); world.fs.root.ch['tmp'] = simfs.Dir(0.0)
        world.fs.cwd = '/w'
        world.quiet = 1
        self.world.h = self
    # ---------------------------------------------------------------- inputs
    def _fresh(self, name, sort='int'):
        name = self._name(name)
        return name, self.eng.fresh('in:' + name, sort)
    def choose(self, name, n):
        if n == 1: return 0
        name, v = self._fresh(name)
        self.inputs.append((name, v))
        self.eng.assume(z3.And(v >= 0, v < n), check=False)
        return self.eng.concretise(v)
    def flag(self, name):
        name, v = self._fresh(name, 'bool')
        self.inputs.append((name, v))
        return self.eng.branch(v)
    def int(self, name, lo, hi):
        name, v = self._fresh(name)
        self.inputs.append((name, v))
        self.eng.assume(z3.And(v >= lo, v <= hi), check=False)
        return SymNum(v)
    def real(self, name, lo, hi, den=4):
        """A multiple of 1/den, a power of two (exact as a float)."""
        name, v = self._fresh(name)
        self.inputs.append((name, v))
        self.eng.assume(z3.And(v >= lo * den, v <= hi * den), check=False)
        return SymNum(z3.ToReal(v) / den)
    def _chars(self, name, n, ranges, kind):
        cs = []
        for i in range(n):
            nm, c = self._fresh('%s[%d]' % (name, i))
            self.inputs.append((nm, c))
            self.eng.assume(z3.Or([z3.And(c >= a, c <= b) if a != b else c == a for a, b in ranges]), check=False)
            cs.append(c)
        return V.mk(kind, tuple(cs))
    def text(self, name, lens, ranges=None):
        n = lens if isinstance(lens, int) else list(lens)[self.choose(name + '.len', len(lens))]
        return self._chars(name, n, ranges or TEXT, 's')
    def blob(self, name, lens):
        n = lens if isinstance(lens, int) else list(lens)[self.choose(name + '.len', len(lens))]
        return self._chars(name, n, ((0, 255),), 'b')
    def content(self, name, ids=4, size=(1, 1000), distinct=()):
        """Opaque bytes: one of `ids` different contents; equal ids mean equal bytes."""
        nm, i = self._fresh(name + '.id'); nm2, s = self._fresh(name + '.size')
        self.inputs += [(nm, i), (nm2, s)]
        e = self.eng
        cons = [i >= 0, i < ids, s >= size[0], s <= size[1]]
        for j, t in self._contents.get('all', []): cons += [z3.Implies(i == j, s == t), z3.Implies(z3.And(s == 0, t == 0), i == j)]
        e.assume(z3.And(cons), check=False)
        self._contents.setdefault('all', []).append((i, s))
        r = Rope.atom(Atom(i, s, 'content', None, name))
        for d in distinct: e.assume(i != d.segs[0][1].id)
        return r
    def lit(self, i, size=10):
        """A fixed content, different from every other id."""
        return gen(i, size)
    def flip(self, data, pos):
        """The data with the byte at `pos` changed."""
        one = data[pos:pos + 1]
        if isinstance(one, Rope):
            self._flips = getattr(self, '_flips', 0) + 1
            new = Rope.atom(Atom(self._flips, 1, 'flip', None, 'flip'))
        else: new = bytes([one[0] ^ 1])
        return data[:pos] + new + data[pos + 1:]
    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if not bool(c): self.eng.die(core.PathAbort('assume'))
    def check(self, c, msg, key=None):
        self.nchecks += 1; self.eng.stats['checks'] += 1
        if not bool(c):
            if self.eng.dead is None:
                self.eng.path_state['violation'] = (msg if isinstance(msg, str) else str(msg), key)
                self.eng.dead = core.PathDone('violation')
            raise self.eng.dead
    def obs(self, key, v): self.obslog.append((key, v))
    def note(self, s): self.notes.append(s)
    def is_sym(self, v): return V.has_sym(v)
    # ---------------------------------------------------------------- environment
    def proc(self, name): return PHandle(self, name)
    def arm(self, proc, *a, **k): super().arm(proc.proc, *a, **k)
    def crashed(self, proc): return proc.proc.dead
    def now(self): return self.world.now()
    def sha(self, data): return self.hp.module('hashlib').sha256(data).hexdigest()
    def json(self, data): return self.hp.module('json').dumps(data).encode('utf8')
    def mkdirs(self, path):
        if not self.hp.env.isdir(path): self.hp.env.makedirs(path)
    def write(self, path, data, mtime=None, tick=True):
        env = self.hp.env
        i = path.rfind('/')
        self.mkdirs(path[:i])
        n = self.world.fs.get(path)
        if n is None:
            d, nm, _ = self.world.fs.parent(path)
            n = d.ch[nm] = simfs.File(b'', 0.0)
        n.data = data
        n.mtime = self.world.touch() if mtime is None else mtime
    def setmtime(self, path, t): self.world.fs.lookup(path).mtime = t
    def mtime(self, path): return self.world.fs.lookup(path).mtime
    def read(self, path):
        n = self.world.fs.lookup(path)
        if isinstance(n, simfs.Dir): raise IsADirectoryError(path)
        return n.data
    def isfile(self, path): return isinstance(self.world.fs.get(path), simfs.File)
    def isdir(self, path): return isinstance(self.world.fs.get(path), simfs.Dir)
    def exists(self, path): return self.world.fs.get(path) is not None
    def rm(self, path): self.hp.env.remove(path)
    def rmtree(self, path): self.hp.env.rmtree(path)
    def rename(self, a, b): self.hp.env.rename(a, b)
    def listdir(self, path): return self.hp.env.listdir(path)
    def tree(self, path, skip=()):
        """{relative path: content} of the regular, non-database files below path."""
        out = V.SymDict()
        for q, f in self.world.fs.tree(path).items():
            if f.db is None and not any(_pre(q, s) for s in skip): out[q] = f.data
        return out
    def dirs(self, path, skip=()):
        out = []
        def rec(d, pre):
            for n, x in list(d.ch.items()):
                if isinstance(x, simfs.Dir) and not any(_pre(pre + n + '/', s) for s in skip): out.append(pre + n); rec(x, pre + n + '/')
        rec(self.world.fs.lookup(path), '/')
        return out
    def copytree(self, src, dst):
        """Copy of a directory including databases (a disk snapshot)."""
        import copy
        def rec(d):
            nd = simfs.Dir(d.mtime)
            for n, x in list(d.ch.items()):
                if isinstance(x, simfs.Dir): nd.ch[n] = rec(x)
                else:
                    f = simfs.File(x.data, x.mtime); f.mode = x.mode
                    if x.db is not None:
                        f.db = '/dev/shm/symx-%d-%d.db' % (env_sym.real_os.getpid(), len(self.world.dbs)); self.world.dbs.append(f.db)
                        for s in ('', '-journal'):
                            try: env_sym.real_os.unlink(f.db + s)
                            except OSError: pass
                            if env_sym.real_os.path.exists(x.db + s): env_sym.real_shutil.copyfile(x.db + s, f.db + s)
                    nd.ch[n] = f
            return nd
        d, nm, _ = self.world.fs.parent(dst)
        d.ch[nm] = rec(self.world.fs.lookup(src))
    def rows(self, db, sql, args=()):
        n = self.world.fs.get(db)
        if n is None or n.db is None: return None
        c = sqlite3.connect(n.db, timeout=0)
        try:
            cod = self.world.codec
            cur = c.execute(sql, tuple(cod.enc(x) for x in args))
            return [tuple(cod.dec(x) for x in r) for r in cur.fetchall()]
        finally: c.close()
    def sqlexec(self, db, stmts):
        n = self.world.fs.get(db)
        c = sqlite3.connect(n.db, timeout=0)
        try:
            for s, a in stmts: c.execute(s, tuple(self.world.codec.enc(x) for x in a))
            c.commit()
        finally: c.close()
    # ---------------------------------------------------------------- models
    def model_inputs(self):
        ok, self._model = self.eng._check()
        if not ok: raise RuntimeError('path condition unsatisfiable')
        vals = self.eng.values([e for _, e in self.inputs], self._model)
        return {n: v for (n, _), v in zip(self.inputs, vals)}
    def concrete_obs(self):
        return [[k, canon(evalv(v, self._model))] for k, v in self.obslog]     # of the model that gave the inputs

def _pre(q, s): return len(q) >= len(s) and q[:len(s)] == s
TEXT = ((1, 46), (48, 0xd7ff), (0xe000, 0x10ffff))

def evalv(x, m):
    ev = lambda e: e if not z3.is_expr(e) else _val(m.eval(e, model_completion=True))
    if isinstance(x, SymNum):
        v = ev(x.e)
        return float(v) if isinstance(v, Fraction) else v
    if isinstance(x, NumStr): return str(evalv(x.num, m))
    if isinstance(x, SymSeq):
        cs = [ev(c) for c in x.chars]
        return ''.join(map(chr, cs)) if x.kind == 's' else bytes(cs)
    if isinstance(x, V.StrRope): return evalv(Rope(tuple(('l', g[1].encode('utf8')) if g[0] == 'l' else g for g in x.segs)), m).decode('utf8')
    if isinstance(x, Rope):
        out = b''
        for s in x.segs:
            if s[0] == 'l': out += evalv(s[1], m)
            else:
                a = s[1]; off, ln = ev(s[2]), ev(s[3])
                if a.kind == 'content': b = gen(ev(a.id), ev(a.size))
                elif a.kind == 'json': b = json.dumps(env_sym.native(evalv(a.data, m))).encode()
                else: b = b'\0' * ev(a.size)
                out += b[off:off + ln]
        return out
    if isinstance(x, JsonText): return json.dumps(env_sym.native(evalv(x.atom.data, m)))
    if isinstance(x, dict): return {evalv(k, m): evalv(v, m) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [evalv(v, m) for v in x]
    if isinstance(x, V.SymSet): return {evalv(v, m) for v in x}
    return x

def _val(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return z3.is_true(v)
