"""Symbolic values: numbers, strings of symbolic code points, ropes (byte strings of symbolic length), opaque JSON text."""
import builtins, json as _json
import z3
from . import core
from .core import Inconclusive

S_WS = frozenset(i for i in range(0x3001) if chr(i).isspace())
B_WS = frozenset(b' \t\n\r\x0b\x0c')

def unsupported(msg):
    core.cur.die(Inconclusive('unsupported symbolic operation: ' + msg))

def br(c): return core.cur.branch(c)

# ------------------------------------------------------------------------------------------------ numbers
def zexpr(x):
    if isinstance(x, SymNum): return x.e
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        if x == int(x): return z3.RealVal(int(x))
        return z3.RealVal(repr(x))
    return None

def mknum(e):
    if not z3.is_expr(e): return e
    if z3.is_int_value(e): return e.as_long()
    return SymNum(e)

def _num2(f):
    def op(self, o):
        e = zexpr(o)
        if e is None: return NotImplemented
        return f(self, self.e, e)
    return op

def _div_ok(b):
    b = z3.simplify(b)
    if not ((z3.is_int_value(b) and b.as_long() > 0) or (z3.is_rational_value(b) and b.numerator_as_long() > 0)):
        unsupported('division by a symbolic or non-positive value')

def _floordiv(a, b):
    _div_ok(b)
    if a.is_int() and b.is_int(): return mknum(a / b)
    return mknum(z3.ToReal(z3.ToInt((z3.ToReal(a) if a.is_int() else a) / (z3.ToReal(b) if b.is_int() else b))))

def _truediv(a, b):
    _div_ok(b)
    return SymNum((z3.ToReal(a) if a.is_int() else a) / (z3.ToReal(b) if b.is_int() else b))

def _mod(a, b):
    _div_ok(b)
    if a.is_int() and b.is_int(): return mknum(a % b)
    unsupported('float modulo')

class SymNum:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    is_real = property(lambda self: self.e.is_real())
    __add__ = __radd__ = _num2(lambda s, a, b: mknum(a + b))
    __sub__ = _num2(lambda s, a, b: mknum(a - b))
    __rsub__ = _num2(lambda s, a, b: mknum(b - a))
    __mul__ = __rmul__ = _num2(lambda s, a, b: mknum(a * b))
    __floordiv__ = _num2(lambda s, a, b: _floordiv(a, b))
    __rfloordiv__ = _num2(lambda s, a, b: _floordiv(b, a))
    __truediv__ = _num2(lambda s, a, b: _truediv(a, b))
    __mod__ = _num2(lambda s, a, b: _mod(a, b))
    __neg__ = lambda s: SymNum(-s.e)
    __pos__ = lambda s: s
    def __abs__(self): return -self if self < 0 else self
    def __divmod__(self, o): return self // o, self % o
    def __eq__(self, o):
        e = zexpr(o)
        if e is None: return False
        return br(self.e == e)
    def __ne__(self, o): return not self.__eq__(o)
    __lt__ = _num2(lambda s, a, b: br(a < b))
    __le__ = _num2(lambda s, a, b: br(a <= b))
    __gt__ = _num2(lambda s, a, b: br(a > b))
    __ge__ = _num2(lambda s, a, b: br(a >= b))
    def __bool__(self): return br(self.e != 0)
    def __hash__(self): unsupported('hash of a symbolic number')
    def __index__(self):
        if self.is_real: raise TypeError("'float' object cannot be interpreted as an integer")
        return core.cur.concretise(self.e)
    def __int__(self):
        if self.is_real: return core.cur.concretise(z3.ToInt(self.e))
        return core.cur.concretise(self.e)
    def __float__(self): return float(core.cur.concretise(self.e))
    def __round__(self, n=None):
        if not self.is_real: return self
        if n is None: return SymNum(z3.ToInt(self.e + z3.Q(1, 2)))
        e = z3.ToReal(z3.ToInt(self.e * (10 ** n) + z3.Q(1, 2))) / (10 ** n)
        # the nearest double, for the doubles of today's times
        if n >= 5: e = z3.ToReal(z3.ToInt(e * 2 ** 22 + z3.Q(1, 2))) / 2 ** 22
        return SymNum(e)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def is_integer(self): return br(z3.IsInt(self.e)) if self.is_real else True
    def __str__(self): return '<%s>' % self.e
    __repr__ = __str__
    def __format__(self, spec): return '<%s>' % self.e

class NumStr:
    """str(number) for a symbolic number; float()/int() of it give the number back (Python's repr round-trips)."""
    __slots__ = ('num',)
    def __init__(self, num): self.num = num
    def _key(self): return self.num
    def __eq__(self, o):
        if isinstance(o, NumStr):
            if self.num.is_real != o.num.is_real: return False
            return self.num == o.num
        if isinstance(o, str):
            try: v = float(o) if self.num.is_real else int(o)
            except ValueError: return False
            return self.num == v if str(v) == o else False
        return False
    def __ne__(self, o): return not self == o
    def __hash__(self): unsupported('hash of str(symbolic number)')
    def encode(self, *a): return self     # only ever decoded / converted back
    def decode(self, *a): return self
    def strip(self, *a): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __len__(self): return len(self.digits('s'))
    def digits(self, kind):
        """The decimal digits of a number >= 0 as text; int() of them gives the number back."""
        if self.num.is_real: unsupported('text of a symbolic float')
        e = self.num.e
        memo = core.cur.path_state.setdefault('digits', {})
        if e.get_id() not in memo:
            if br(e < 0): unsupported('text of a negative symbolic number')
            n = 1
            while not br(e < 10 ** n): n += 1
            ds = [core.cur.fresh('digit') for i in range(n)]
            core.cur.assume(z3.And([z3.And(d >= 48, d <= 57) for d in ds] + ([ds[0] > 48] if n > 1 else []) +
                [e == z3.Sum([(d - 48) * 10 ** (n - 1 - i) for i, d in enumerate(ds)])]), check=False)
            memo[e.get_id()] = tuple(ds)
            core.cur.path_state.setdefault('undigits', {})[tuple(d.get_id() for d in ds)] = (self.num, e, ds)
        return SymSeq(kind, memo[e.get_id()])
    def __add__(self, o):
        k = 'b' if isinstance(o, (bytes, bytearray, Rope)) or isinstance(o, SymSeq) and o.kind == 'b' else 's'
        return self.digits(k) + o
    def __radd__(self, o):
        k = 'b' if isinstance(o, (bytes, bytearray, Rope)) or isinstance(o, SymSeq) and o.kind == 'b' else 's'
        return o + self.digits(k)
    def _foreign(self, sub):
        """Text no number holds a character of."""
        return isinstance(sub, (str, bytes)) and len(sub) and not any(c in '0123456789+-.einfa' for c in (sub if isinstance(sub, str) else map(chr, sub)))
    def __contains__(self, sub):
        if self._foreign(sub): return False
        return sub in self.digits('s' if isinstance(sub, str) or is_symstr(sub) else 'b')
    def __str__(self): return '<str %s>' % self.num
    __repr__ = __str__
    def __getattr__(self, n):
        if n[:1] == '_': raise AttributeError(n)
        if n in ('lower', 'casefold'): return lambda: self
        if n in ('lstrip', 'rstrip'): return lambda chars=None: self if chars is None or self._foreign(chars) else getattr(self.digits('s' if isinstance(chars, str) else 'b'), n)(chars)
        if n in ('find', 'rfind', 'index', 'rindex', 'count', 'replace', 'startswith', 'endswith', 'split', 'rsplit', 'partition', 'rpartition', 'removeprefix', 'removesuffix'):
            def call(sub=None, *a, **k):
                if sub is None: return [self]
                if self._foreign(sub):
                    if n in ('index', 'rindex'): raise ValueError('substring not found')
                    e = sub[:0]
                    return {'find': -1, 'rfind': -1, 'count': 0, 'replace': self, 'startswith': False, 'endswith': False, 'split': [self], 'rsplit': [self], 'partition': (self, e, e), 'rpartition': (e, e, self),
                            'removeprefix': self, 'removesuffix': self}[n]
                return getattr(self.digits('s' if isinstance(sub, str) or is_symstr(sub) else 'b'), n)(sub, *a, **k)
            return call
        unsupported('str(symbolic number).%s' % n)

# ------------------------------------------------------------------------------------------------ strings
def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return br(a == b)

def cin(c, pts):
    if isinstance(c, int): return c in pts
    return br(z3.Or([c == p for p in sorted(pts)])) if pts else False

def crange(c, lo, hi):
    if isinstance(c, int): return lo <= c <= hi
    return br(z3.And(c >= lo, c <= hi))

def is_symstr(x): return isinstance(x, SymSeq) and x.kind == 's'

def seq_of(x, kind):
    """code point tuple of a str/bytes-like operand, or None."""
    if isinstance(x, SymSeq): return x.chars if x.kind == kind else None
    if kind == 's' and isinstance(x, str): return tuple(map(ord, x))
    if kind == 'b' and isinstance(x, (bytes, bytearray)): return tuple(x)
    return None

def mk(kind, chars):
    for c in chars:
        if not isinstance(c, int): return SymSeq(kind, tuple(chars))
    return ''.join(map(chr, chars)) if kind == 's' else bytes(chars)

def need(x, kind):
    s = seq_of(x, kind)
    if s is None:
        raise TypeError('must be %s, not %s' % ('str' if kind == 's' else 'bytes', type(x).__name__))
    return s

def lift(x):
    if isinstance(x, SymSeq): return x
    if isinstance(x, str): return SymSeq('s', tuple(map(ord, x)))
    return SymSeq('b', tuple(x))

class SymSeq:
    """A str ('s') or bytes ('b') of concrete length whose code points are ints or z3 Int expressions."""
    __slots__ = ('kind', 'chars')
    def __init__(self, kind, chars): self.kind = kind; self.chars = chars
    def _mk(self, chars): return mk(self.kind, chars)
    def __len__(self): return len(self.chars)
    def __bool__(self): return len(self.chars) > 0
    def __iter__(self):
        for c in self.chars:
            yield self._mk((c,)) if self.kind == 's' else mknum(c)
    def __getitem__(self, i):
        if isinstance(i, slice): return self._mk(self.chars[i])
        c = self.chars[i]
        return self._mk((c,)) if self.kind == 's' else mknum(c)
    def __add__(self, o):
        s = seq_of(o, self.kind)
        if s is None: return NotImplemented
        return self._mk(self.chars + s)
    def __radd__(self, o):
        s = seq_of(o, self.kind)
        if s is None: return NotImplemented
        return self._mk(s + self.chars)
    def __mul__(self, n): return self._mk(self.chars * n)
    __rmul__ = __mul__
    def __eq__(self, o):
        s = seq_of(o, self.kind)
        if s is None:
            if isinstance(o, Rope): return o == self
            return False
        if s is self.chars: return True
        if len(s) != len(self.chars): return False
        conj = []
        for a, b in zip(self.chars, s):
            if isinstance(a, int) and isinstance(b, int):
                if a != b: return False
            elif a is not b: conj.append(a == b)
        if not conj: return True
        return br(z3.And(conj) if len(conj) > 1 else conj[0])
    def __ne__(self, o): return not self == o
    def _cmp(self, o):
        s = need(o, self.kind)
        for a, b in zip(self.chars, s):
            if ceq(a, b): continue
            if isinstance(a, int) and isinstance(b, int): return -1 if a < b else 1
            return -1 if br(a < b) else 1
        return (len(self.chars) > len(s)) - (len(self.chars) < len(s))
    def __lt__(self, o): return self._cmp(o) < 0
    def __le__(self, o): return self._cmp(o) <= 0
    def __gt__(self, o): return self._cmp(o) > 0
    def __ge__(self, o): return self._cmp(o) >= 0
    def __hash__(self): unsupported('hash of a symbolic string (native dict or set key)')
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self):
        return ('' if self.kind == 's' else 'b') + '"' + ''.join(chr(c) if isinstance(c, int) else '{%s}' % c for c in self.chars) + '"'
    __str__ = __repr__
    def __fspath__(self): unsupported('symbolic path handed to the real operating system')
    # ---- searching
    def _at(self, sub, i):
        for j, c in enumerate(sub):
            if not ceq(self.chars[i + j], c): return False
        return True
    def _find(self, sub, start=0, end=None):
        n = len(self.chars) if end is None else end
        for i in range(start, n - len(sub) + 1):
            if self._at(sub, i): return i
        return -1
    def _rfind(self, sub, start=0, end=None):
        n = len(self.chars) if end is None else end
        for i in range(n - len(sub), start - 1, -1):
            if self._at(sub, i): return i
        return -1
    def _sub(self, x):
        if self.kind == 'b' and isinstance(x, int): return (x,)
        if self.kind == 'b' and isinstance(x, SymNum): return (x.e,)
        return need(x, self.kind)
    def _rng(self, start, end):
        s, e, _ = slice(start, end).indices(len(self.chars)); return s, e
    def __contains__(self, sub):
        sub = self._sub(sub); n = len(sub); dis = []
        if n == 1 and not isinstance(sub[0], int) and all(isinstance(c, int) for c in self.chars):
            x = sub[0]; vs = sorted(set(self.chars)); i = 0
            while i < len(vs):
                j = i
                while j + 1 < len(vs) and vs[j + 1] == vs[j] + 1: j += 1
                dis.append(x == vs[i] if i == j else z3.And(x >= vs[i], x <= vs[j])); i = j + 1
        else:
            for i in range(len(self.chars) - n + 1):
                con = []
                for a, b in zip(self.chars[i:i + n], sub):
                    if isinstance(a, int) and isinstance(b, int):
                        if a != b: break
                    elif a is not b: con.append(a == b)
                else:
                    if not con: return True
                    dis.append(z3.And(con) if len(con) > 1 else con[0])
        if not dis: return False
        return br(z3.Or(dis) if len(dis) > 1 else dis[0])
    def find(self, sub, start=None, end=None): return self._find(self._sub(sub), *self._rng(start, end))
    def rfind(self, sub, start=None, end=None): return self._rfind(self._sub(sub), *self._rng(start, end))
    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0: raise ValueError('substring not found')
        return r
    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0: raise ValueError('substring not found')
        return r
    def count(self, sub):
        sub = self._sub(sub); n = 0; i = 0
        if not sub: return len(self.chars) + 1
        while True:
            j = self._find(sub, i)
            if j < 0: return n
            n += 1; i = j + len(sub)
    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple): return any(self.startswith(q, start, end) for q in p)
        p = need(p, self.kind); s, e = self._rng(start, end)
        return e - s >= len(p) and self._at(p, s)
    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple): return any(self.endswith(q, start, end) for q in p)
        p = need(p, self.kind); s, e = self._rng(start, end)
        return e - s >= len(p) and self._at(p, e - len(p))
    # ---- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None: return self._split_ws(maxsplit)
        sep = need(sep, self.kind)
        if not sep: raise ValueError('empty separator')
        out = []; i = 0
        while maxsplit != 0:
            j = self._find(sep, i)
            if j < 0: break
            out.append(self._mk(self.chars[i:j])); i = j + len(sep); maxsplit -= 1
        out.append(self._mk(self.chars[i:]))
        return out
    def _split_ws(self, maxsplit):
        ws = S_WS if self.kind == 's' else B_WS
        out = []; n = len(self.chars); i = 0
        while True:
            while i < n and cin(self.chars[i], ws): i += 1
            if i >= n: return out
            if maxsplit == 0:
                out.append(self._mk(self.chars[i:]).rstrip()); return out
            j = i
            while j < n and not cin(self.chars[j], ws): j += 1
            out.append(self._mk(self.chars[i:j])); i = j; maxsplit -= 1
    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit == -1: return self._split_ws(-1)
            unsupported('rsplit(None, n)')
        sep = need(sep, self.kind); out = []; e = len(self.chars)
        while maxsplit != 0:
            j = self._rfind(sep, 0, e)
            if j < 0: break
            out.insert(0, self._mk(self.chars[j + len(sep):e])); e = j; maxsplit -= 1
        out.insert(0, self._mk(self.chars[:e]))
        return out
    def partition(self, sep):
        s = need(sep, self.kind); j = self._find(s)
        if j < 0: return self, self._mk(()), self._mk(())
        return self._mk(self.chars[:j]), sep, self._mk(self.chars[j + len(s):])
    def rpartition(self, sep):
        s = need(sep, self.kind); j = self._rfind(s)
        if j < 0: return self._mk(()), self._mk(()), self
        return self._mk(self.chars[:j]), sep, self._mk(self.chars[j + len(s):])
    def splitlines(self, keepends=False):
        brk = frozenset((10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)) if self.kind == 's' else frozenset((10, 13))
        out = []; i = 0; n = len(self.chars); start = 0
        while i < n:
            if cin(self.chars[i], brk):
                j = i + 1
                if ceq(self.chars[i], 13) and j < n and ceq(self.chars[j], 10): j += 1
                out.append(self._mk(self.chars[start:j if keepends else i])); start = i = j
            else: i += 1
        if start < n: out.append(self._mk(self.chars[start:]))
        return out
    # ---- stripping / replacing
    def _set(self, chars):
        if chars is None: return S_WS if self.kind == 's' else B_WS
        s = need(chars, self.kind)
        if all(isinstance(c, int) for c in s): return frozenset(s)
        unsupported('strip of symbolic characters')
    def lstrip(self, chars=None):
        st = self._set(chars); i = 0
        while i < len(self.chars) and cin(self.chars[i], st): i += 1
        return self._mk(self.chars[i:])
    def rstrip(self, chars=None):
        st = self._set(chars); i = len(self.chars)
        while i > 0 and cin(self.chars[i - 1], st): i -= 1
        return self._mk(self.chars[:i])
    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)
    def replace(self, old, new, count=-1):
        o = need(old, self.kind); n = need(new, self.kind)
        if not o: unsupported('replace of the empty string')
        out = []; i = 0
        while count != 0:
            j = self._find(o, i)
            if j < 0: break
            out += self.chars[i:j]; out += n; i = j + len(o); count -= 1
        out += self.chars[i:]
        return self._mk(tuple(out))
    def removeprefix(self, p): return self._mk(self.chars[len(p):]) if self.startswith(p) else self
    def removesuffix(self, p): return self._mk(self.chars[:len(self.chars) - len(p)]) if len(p) and self.endswith(p) else self
    def join(self, items):
        out = []; first = True
        for it in items:
            if isinstance(it, NumStr): it = it.digits(self.kind)
            s = need(it, self.kind)
            if not first: out += self.chars
            out += s; first = False
        return self._mk(tuple(out))
    # ---- case and classes
    def _map(self, lo, hi, d):
        out = []
        for c in self.chars:
            if isinstance(c, int):
                t = (chr(c).lower() if d > 0 else chr(c).upper()) if self.kind == 's' else None
                if t is None: out.append(c + d if lo <= c <= hi else c)
                else: out += map(ord, t)
            else:
                if self.kind == 's' and br(c >= 128): unsupported('case mapping of a non-ASCII symbolic character')
                out.append(c + d if crange(c, lo, hi) else c)
        return self._mk(tuple(out))
    def lower(self): return self._map(65, 90, 32)
    def upper(self): return self._map(97, 122, -32)
    casefold = lower
    def _ascii(self, c):
        if self.kind == 's' and not isinstance(c, int) and br(c >= 128): unsupported('character class of a non-ASCII symbolic character')
    def _all(self, f, g):
        if not self.chars: return False
        for c in self.chars:
            if isinstance(c, int):
                if not g(chr(c)): return False
            else:
                self._ascii(c)
                if not f(c): return False
        return True
    def isdigit(self): return self._all(lambda c: crange(c, 48, 57), str.isdigit)
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all(lambda c: br(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))), str.isalpha)
    def isalnum(self): return self._all(lambda c: br(z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))), str.isalnum)
    def isspace(self): return self._all(lambda c: cin(c, S_WS if self.kind == 's' else B_WS), str.isspace)
    def isascii(self):
        for c in self.chars:
            if not crange(c, 0, 127): return False
        return True
    def isprintable(self): return self._all(lambda c: crange(c, 32, 126), str.isprintable)
    # ---- coding
    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []
        for c in self.chars:
            if isinstance(c, int): out += chr(c).encode(encoding, errors); continue
            if enc in ('utf-8', 'utf8'):
                if br(c < 0x80): out.append(c)
                elif br(c < 0x800): out += [0xc0 + c / 64, 0x80 + c % 64]
                elif br(c < 0x10000): out += [0xe0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]
                else: out += [0xf0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64]
            elif enc in ('latin-1', 'iso-8859-1', 'latin1', 'ascii'):
                if br(c < (0x80 if enc == 'ascii' else 0x100)): out.append(c)
                elif errors == 'strict': raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
                elif errors == 'ignore': pass
                elif errors == 'replace': out.append(63)
                else: unsupported('encode errors=' + errors)
            else: unsupported('encode ' + enc)
        return mk('b', tuple(out))
    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        out = []; cs = self.chars; i = 0; n = len(cs)
        if enc in ('latin-1', 'iso-8859-1', 'latin1'): return mk('s', cs)
        if enc not in ('utf-8', 'utf8', 'ascii'): unsupported('decode ' + enc)
        def bad():
            if errors == 'strict': raise UnicodeDecodeError(enc, b'?', 0, 1, 'invalid byte')
            if errors == 'ignore': return
            if errors == 'replace': out.append(0xfffd); return
            unsupported('decode errors=' + errors)
        def ge(c, v): return c >= v if isinstance(c, int) else br(c >= v)
        def cont(j): return j < n and crange(cs[j], 0x80, 0xbf)
        while i < n:
            c = cs[i]
            if not ge(c, 0x80): out.append(c); i += 1; continue
            if enc == 'ascii' or not ge(c, 0xc2) or ge(c, 0xf5): bad(); i += 1; continue
            k = 1 if not ge(c, 0xe0) else 2 if not ge(c, 0xf0) else 3
            if all(cont(i + j) for j in range(1, k + 1)):
                v = c - (0xc0, 0xe0, 0xf0)[k - 1]
                for j in range(1, k + 1): v = v * 64 + (cs[i + j] - 0x80)
                lo = (0x80, 0x800, 0x10000)[k - 1]
                okr = crange(v, lo, 0x10ffff) and not crange(v, 0xd800, 0xdfff)
                if not okr: bad(); i += 1; continue
                out.append(z3.simplify(v) if z3.is_expr(v) else v); i += k + 1
            else: bad(); i += 1
        return mk('s', tuple(out))
    def hex(self): unsupported('hex of symbolic bytes')
    def zfill(self, n): return self if len(self.chars) >= n else self._mk((48,) * (n - len(self.chars)) + self.chars)
    def ljust(self, n, f=' '): return self + (f if self.kind == 's' else f) * max(0, n - len(self.chars))
    def format(self, *a, **k): unsupported('format on a symbolic template')
    def translate(self, *a): unsupported('translate')
    def to_int(self):
        """int(str)"""
        s = self.strip()
        cs = lift(s).chars; neg = False
        known = core.cur.path_state.get('undigits', {}).get(tuple(c.get_id() if z3.is_expr(c) else -1 for c in cs))
        if known is not None: return known[0]
        if cs and cin(cs[0], frozenset((43, 45))):
            neg = ceq(cs[0], 45); cs = cs[1:]
        if not cs: raise ValueError('invalid literal for int()')
        v = 0
        for c in cs:
            if not crange(c, 48, 57): raise ValueError('invalid literal for int()')
            v = v * 10 + (c - 48)
        return mknum(z3.simplify(-v if neg else v)) if z3.is_expr(v) else (-v if neg else v)

# ------------------------------------------------------------------------------------------------ ropes
class Atom:
    """Opaque byte content: `id` identifies the content (equal ids <=> equal contents), `size` its length (>0).
    Contents of distinct atoms never equal literal bytes other than by construction (stated assumption)."""
    __slots__ = ('id', 'size', 'kind', 'data', 'name')
    def __init__(self, id, size, kind='content', data=None, name=''):
        self.id = id; self.size = size; self.kind = kind; self.data = data; self.name = name
    def __repr__(self): return '%s#%s' % (self.name or self.kind, self.id)

def atom_eq(a, b):
    if a is b: return True
    if a.kind != b.kind: return False
    if a.kind == 'json': return struct_eq(a.data, b.data)
    if a.kind == 'enc': return a.data is b.data
    r = a.id == b.id
    return r if isinstance(r, bool) else br(r)

def struct_eq(a, b):
    """Equality of JSON texts (key order matters)."""
    if isinstance(a, dict):
        if not isinstance(b, dict): return False
        ia, ib = list(a.items()), list(b.items())
        return len(ia) == len(ib) and all(struct_eq(k, k2) and struct_eq(v, v2) for (k, v), (k2, v2) in zip(ia, ib))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(struct_eq(x, y) for x, y in zip(a, b))
    if isinstance(b, (dict, list, tuple)): return False
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if a is None or b is None: return a is b
    num = (int, float, SymNum)
    if isinstance(a, num) != isinstance(b, num): return False
    return bool(a == b)

def isz(x): return isinstance(x, int) and x == 0
def num(x): return SymNum(x) if z3.is_expr(x) else x
def raw(x): return x.e if isinstance(x, SymNum) else x

class Rope:
    """bytes made of segments: ('l', bytes-or-SymSeq) or ('a', atom, off, len) with possibly symbolic off/len."""
    __slots__ = ('segs',)
    empty = b''; what = 'bytes'
    def __init__(self, segs): self.segs = segs
    def _to(self, x): return Rope.of(x)
    def _one(self): return self
    @staticmethod
    def of(x):
        if isinstance(x, Rope): return x
        if isinstance(x, (bytes, bytearray)): return Rope((('l', bytes(x)),) if x else ())
        if isinstance(x, SymSeq) and x.kind == 'b': return Rope((('l', x),) if x.chars else ())
        if isinstance(x, memoryview): return Rope.of(bytes(x))
        return None
    @staticmethod
    def atom(a): return Rope((('a', a, 0, a.size),))
    def norm(self):
        out = []
        for s in self.segs:
            if s[0] == 'l':
                if out and out[-1][0] == 'l': out[-1] = ('l', out[-1][1] + s[1])
                elif len(s[1]): out.append(s)
            else:
                if isz(s[3]): continue
                if out and out[-1][0] == 'a' and out[-1][1] is s[1]:
                    p = out[-1]
                    if _same(p[2] + p[3], s[2]):
                        out[-1] = ('a', s[1], p[2], _simp(p[3] + s[3])); continue
                out.append(s)
        if not out: return self.empty
        if len(out) == 1 and out[0][0] == 'l': return out[0][1]
        return type(self)(tuple(out))._one()
    def length(self):
        n = 0
        for s in self.segs: n = n + (len(s[1]) if s[0] == 'l' else s[3])
        return num(_simp(n))
    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else n.__index__()
    def __bool__(self): return bool(self.length() != 0)
    def __add__(self, o):
        o = self._to(o)
        if o is None: return NotImplemented
        return type(self)(self.segs + o.segs).norm()
    def __radd__(self, o):
        o = self._to(o)
        if o is None: return NotImplemented
        return type(self)(o.segs + self.segs).norm()
    def __hash__(self): unsupported('hash of opaque bytes')
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return 'Rope(%s)' % (self.segs,)
    def __getitem__(self, i):
        if not isinstance(i, slice):
            b = self[i:i + 1] if i != -1 else self[-1:]
            if isinstance(b, (Rope, JsonText)): unsupported('byte of opaque content')
            if not len(b): raise IndexError('index out of range')
            return b[0]
        if i.step not in (None, 1): unsupported('slice step')
        n = self.length()
        a = 0 if i.start is None else i.start
        b = n if i.stop is None else i.stop
        if a < 0: a = n + a
        if a < 0: a = 0
        if i.stop is not None and b < 0: b = n + b
        if i.stop is not None and not b <= n: b = n
        if a >= b: return self.empty
        return self._cut(a, b)
    def _cut(self, a, b):
        """bytes a..b with 0 <= a < b <= length"""
        out = []; pos = 0
        a, b = raw(a), raw(b)
        for s in self.segs:
            ln = len(s[1]) if s[0] == 'l' else s[3]
            end = _simp(pos + ln)
            # overlap of [pos,end) with [a,b)
            if _le(end, a): pos = end; continue
            if _le(b, pos): break
            lo = 0 if _le(a, pos) else _simp(a - pos)
            hi = ln if _le(end, b) else _simp(b - pos)
            if s[0] == 'l':
                if z3.is_expr(lo): lo = core.cur.concretise(lo)
                if z3.is_expr(hi): hi = core.cur.concretise(hi)
                out.append(('l', s[1][lo:hi]))
            else: out.append(('a', s[1], _simp(s[2] + lo), _simp(hi - lo)))
            pos = end
        return type(self)(tuple(out)).norm()
    def __eq__(self, o):
        o = self._to(o)
        if o is None: return False
        a = list(_segs(self.norm())); b = list(_segs(o.norm()))
        while a and b:
            x, y = a[0], b[0]
            if x[0] == 'l' and y[0] == 'l':
                n = min(len(x[1]), len(y[1]))
                if not x[1][:n] == y[1][:n]: return False
                _drop(a, n); _drop(b, n); continue
            if x[0] != y[0]: return False     # opaque content never equals literal bytes (assumption)
            if not atom_eq(x[1], y[1]): return False
            if not _eq(x[2], y[2]): return False
            if _eq(x[3], y[3]): a.pop(0); b.pop(0)
            elif _le(x[3], y[3]): n = x[3]; a.pop(0); _drop(b, n)
            else: n = y[3]; b.pop(0); _drop(a, n)
        if a or b:
            rest = a or b
            for s in rest:
                if s[0] == 'l': return False
                if not _eq(s[3], 0): return False
        return True
    def __ne__(self, o): return not self == o
    def whole(self):
        """The atom if this is exactly one whole atom."""
        n = self.norm()
        if isinstance(n, Rope) and len(n.segs) == 1 and isz(n.segs[0][2]) and _same(n.segs[0][3], n.segs[0][1].size):
            return n.segs[0][1]
        return None
    def __contains__(self, sub): return self.find(sub) >= 0
    def _plain(self, sub): return type(sub) is type(self.empty) and len(sub) > 0 and all((c if isinstance(c, int) else ord(c)) < 0x20 for c in sub)
    def _search(self, segs, sub, last=False):
        """Search from one end; a match inside opaque content is not modelled, but JSON text holds no control characters."""
        control = self._plain(sub); pos = 0
        for g in reversed(segs) if last else segs:
            if g[0] == 'l':
                r = g[1].rfind(sub) if last else g[1].find(sub)
                if r >= 0: return r, pos
                pos = _simp(pos + len(g[1]))
                if not control: break
            elif control and g[1].name == 'json': pos = _simp(pos + g[3])
            else: break
        else: return None
        unsupported('search in opaque content')
    def find(self, sub, start=0, end=None):
        if end is not None: unsupported('find with an end in opaque bytes')
        if start:
            r = self[start:]
            i = r.find(sub)
            return i if i < 0 else num(_simp(raw(i) + raw(start)))
        s = self.norm()
        if not isinstance(s, Rope): return s.find(sub)
        r = s._search(s.segs, sub)
        return -1 if r is None else num(_simp(raw(r[0]) + r[1]))
    def rfind(self, sub):
        s = self.norm()
        if not isinstance(s, Rope): return s.rfind(sub)
        pos = 0
        for g in reversed(s.segs):
            n = len(g[1]) if g[0] == 'l' else g[3]
            r = s._search((g,), sub, last=True)
            pos = _simp(pos + n)
            if r is not None: return num(_simp(raw(s.length()) - pos + raw(r[0])))
        return -1
    def index(self, sub, start=0, end=None):
        i = self.find(sub, start, end)
        if isinstance(i, int) and i < 0: raise ValueError('substring not found' if self.what == 'str' else 'subsection not found')
        return i
    def rindex(self, sub):
        i = self.rfind(sub)
        if isinstance(i, int) and i < 0: raise ValueError('substring not found' if self.what == 'str' else 'subsection not found')
        return i
    def split(self, sep=None, maxsplit=-1):
        if sep is None: unsupported('split of opaque content')
        out = []; rest = self
        while maxsplit != 0 and isinstance(rest, (Rope, JsonText)):
            i = rest.find(sep)
            if isinstance(i, int) and i < 0: break
            out.append(rest[:i]); rest = rest[i + len(sep):]; maxsplit -= 1
        if isinstance(rest, (Rope, JsonText)): return out + [rest]
        return out + rest.split(sep, maxsplit)
    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1 and sep is not None: return self.split(sep)
        if sep is None or maxsplit != 1: unsupported('rsplit of opaque content')
        i = self.rfind(sep)
        return [self] if isinstance(i, int) and i < 0 else [self[:i], self[i + len(sep):]]
    def partition(self, sep):
        i = self.find(sep)
        if isinstance(i, int) and i < 0: return self._one(), self.empty, self.empty
        return self[:i], sep, self[i + len(sep):]
    def rpartition(self, sep):
        i = self.rfind(sep)
        if isinstance(i, int) and i < 0: return self.empty, self.empty, self._one()
        return self[:i], sep, self[i + len(sep):]
    def count(self, sub):
        if not self._plain(sub): unsupported('count in opaque content')
        return len(self.split(sub)) - 1
    def replace(self, old, new, count=-1):
        if not self._plain(old): unsupported('replace in opaque content')
        parts = self.split(old, count); out = parts[0]
        for x in parts[1:]: out = out + new + x
        return out
    def splitlines(self, keepends=False):
        if keepends or any(g[0] == 'a' and g[1].name != 'json' or g[0] == 'l' and is_sym(g[1]) for g in self.segs): unsupported('splitlines of opaque content')
        if isinstance(self, StrRope) and any(g[0] == 'l' and any(ord(c) in (0x85, 0x2028, 0x2029) or ord(c) < 0x20 and c not in '\r\n' for c in g[1]) for g in self.segs): unsupported('splitlines of opaque content')
        cr, lf = (b'\r', b'\n') if self.what == 'bytes' else ('\r', '\n')
        out = self.replace(cr + lf, lf)
        out = out.replace(cr, lf).split(lf)
        return out[:-1] if type(out[-1]) is type(self.empty) and not out[-1] else out
    def startswith(self, p):
        if not (isinstance(p, tuple) or len(p)): return True
        s = self.norm()
        if not isinstance(s, Rope): return s.startswith(p)
        ps = p if isinstance(p, tuple) else (p,)
        native = all(type(q) is type(self.empty) for q in ps)
        if s.segs[0][0] == 'l' and native and all(len(q) <= len(s.segs[0][1]) for q in ps): return s.segs[0][1].startswith(p)
        if s.segs[0][0] == 'a' and s.segs[0][1].name == 'json' and isz(s.segs[0][2]) and native and all(q[:1].isspace() for q in ps): return False
        unsupported('startswith on opaque content')
    def endswith(self, p):
        if not (isinstance(p, tuple) or len(p)): return True
        s = self.norm()
        if not isinstance(s, Rope): return s.endswith(p)
        ps = p if isinstance(p, tuple) else (p,)
        native = all(type(q) is type(self.empty) for q in ps); g = s.segs[-1]
        if g[0] == 'l' and native and all(len(q) <= len(g[1]) for q in ps): return g[1].endswith(p)
        if g[0] == 'a' and g[1].name == 'json' and _same(g[2] + g[3], g[1].size) and native and all(q[-1:].isspace() for q in ps): return False
        unsupported('endswith on opaque content')
    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self._one()
    def removesuffix(self, p): return self[:num(_simp(raw(self.length()) - len(p)))] if len(p) and self.endswith(p) else self._one()
    def _strip(self, left, right, chars=None):
        if chars is not None and not (type(chars) is type(self.empty) and all(chars[i:i + 1].isspace() for i in range(len(chars)))): unsupported('strip of opaque content')
        s = self.norm()
        if not isinstance(s, Rope): return s.strip(chars) if left and right else s.lstrip(chars) if left else s.rstrip(chars)
        segs = list(s.segs)
        while left and segs and segs[0][0] == 'l':
            t = segs[0][1].lstrip(chars); segs[0] = ('l', t)
            if len(t): break
            del segs[0]
        while right and segs and segs[-1][0] == 'l':
            t = segs[-1][1].rstrip(chars); segs[-1] = ('l', t)
            if len(t): break
            del segs[-1]
        for g, on in ((segs[:1], left), (segs[-1:], right)):
            if on and g and g[0][0] == 'a' and not (g[0][1].kind == 'json' and isz(g[0][2]) and _same(g[0][3], g[0][1].size)): unsupported('strip of opaque content')
        return type(self)(tuple(segs)).norm()
    def strip(self, chars=None): return self._strip(True, True, chars)
    def lstrip(self, chars=None): return self._strip(True, False, chars)
    def rstrip(self, chars=None): return self._strip(False, True, chars)
    def decode(self, *a, **k):
        s = self.norm()
        if not isinstance(s, Rope): return s.decode(*a, **k)
        if all(g[0] == 'l' or g[1].kind == 'json' for g in s.segs):
            return StrRope(tuple(('l', g[1].decode(*a, **k)) if g[0] == 'l' else g for g in s.segs)).norm()
        unsupported('decode of opaque content')
    def __iter__(self): unsupported('iterating opaque bytes')
    def __getattr__(self, n):
        if n[:1] == '_': raise AttributeError(n)
        unsupported('%s.%s on opaque content' % (self.what, n))

class StrRope(Rope):
    """str in which JSON text stands beside other characters."""
    __slots__ = ()
    empty = ''; what = 'str'
    def _to(self, x):
        if isinstance(x, StrRope): return x
        if isinstance(x, JsonText): return x.rope()
        if isinstance(x, str) or is_symstr(x): return StrRope((('l', x),) if len(x) else ())
        return None
    def _one(self):
        if len(self.segs) == 1 and self.segs[0][0] == 'a':
            w = self.whole()
            if w is not None: return JsonText(w)
        return self
    def whole(self):
        g = self.segs[0] if len(self.segs) == 1 else None
        return g[1] if g is not None and g[0] == 'a' and isz(g[2]) and _same(g[3], g[1].size) else None
    def encode(self, *a, **k): return Rope(tuple(('l', g[1].encode(*a, **k)) if g[0] == 'l' else g for g in self.segs)).norm()
    def decode(self, *a, **k): raise AttributeError("'str' object has no attribute 'decode'")

def _segs(x): return x.segs if isinstance(x, Rope) else (('l', x),) if len(x) else ()
def _simp(x):
    if not z3.is_expr(x): return raw(x)
    x = z3.simplify(x)
    return x.as_long() if z3.is_int_value(x) else x
def _same(a, b):
    d = _simp(raw(a) - raw(b))
    return isz(d)
def _eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if _same(a, b): return True
    return br(a == b)
def _le(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    d = _simp(b - a)
    return d >= 0 if isinstance(d, int) else br(d >= 0)
def _drop(segs, n):
    s = segs[0]
    if s[0] == 'l':
        rest = s[1][n:]
        if len(rest): segs[0] = ('l', rest)
        else: segs.pop(0)
    else:
        segs[0] = ('a', s[1], _simp(s[2] + n), _simp(s[3] - n))

class JsonText:
    """str holding the JSON text of a structure with symbolic leaves."""
    __slots__ = ('atom',)
    def __init__(self, atom): self.atom = atom
    def rope(self): return StrRope((('a', self.atom, 0, self.atom.size),))
    def encode(self, *a, **k): return Rope.atom(self.atom)
    def __eq__(self, o): return isinstance(o, JsonText) and atom_eq(self.atom, o.atom)
    def __ne__(self, o): return not self == o
    def __hash__(self): unsupported('hash of symbolic JSON text')
    def length(self): return num(self.atom.size)
    def __len__(self): unsupported('len of symbolic JSON text')
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __bool__(self): return True
    def __add__(self, o): return self.rope() + o
    def __radd__(self, o): return o + self.rope()
    def __getitem__(self, i): return self.rope()[i]
    def __contains__(self, sub): return sub in self.rope()
    def __getattr__(self, n):
        if n in ('strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'removeprefix', 'removesuffix', 'split', 'rsplit', 'partition', 'rpartition', 'find', 'rfind', 'index', 'rindex', 'count', 'replace', 'splitlines'):
            return getattr(self.rope(), n)
        if n[:1] == '_': raise AttributeError(n)
        unsupported('str.%s on symbolic JSON text' % n)

SYMTYPES = frozenset((SymSeq, SymNum, NumStr, Rope, StrRope, JsonText))
def is_sym(x): return type(x) in SYMTYPES

def has_sym(x):
    if is_sym(x): return True
    if isinstance(x, dict): return any(has_sym(k) or has_sym(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)): return any(has_sym(v) for v in x)
    return False

# ------------------------------------------------------------------------------------------------ containers
_native = (str, bytes, int, float, bool, type(None), tuple, frozenset, type)

class _Miss: pass
MISS = _Miss()

def _symkey(k):
    t = type(k)
    if t is str or t is int: return False
    if t in SYMTYPES: return True
    if t is tuple: return any(_symkey(i) for i in k)
    return False

def key_eq(a, b):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(key_eq(x, y) for x, y in zip(a, b))
    if type(a) is type(b) or _symkey(a) or _symkey(b): return bool(a == b)
    return a == b

class SymDict(dict):
    """dict accepting symbolic keys.  While all keys are concrete it is a native dict; the first symbolic key that is
    equal to none of the present keys moves it to an association list (`_l`)."""
    __slots__ = ('_l',)
    def __init__(self, *a, **k):
        dict.__init__(self); self._l = None
        self.update(*a, **k)
    def _find(self, k):
        """the stored key equal to k, or MISS; in list mode: index"""
        if self._l is None:
            if not _symkey(k):
                return k if dict.__contains__(self, k) else MISS
            for q in dict.keys(self):
                if key_eq(k, q): return q
            return MISS
        for i, (q, _) in enumerate(self._l):
            if key_eq(k, q): return i
        return MISS
    def __getitem__(self, k):
        f = self._find(k)
        if f is MISS: return self.__missing__(k)
        return dict.__getitem__(self, f) if self._l is None else self._l[f][1]
    def __missing__(self, k): raise KeyError(k)
    def __setitem__(self, k, v):
        if self._l is None and not _symkey(k): dict.__setitem__(self, k, v); return
        f = self._find(k)
        if self._l is None:
            if f is not MISS: dict.__setitem__(self, f, v); return
            self._l = [list(p) for p in dict.items(self)]; dict.clear(self)
            self._l.append([k, v]); return
        if f is MISS: self._l.append([k, v])
        else: self._l[f][1] = v
    def __delitem__(self, k):
        f = self._find(k)
        if f is MISS: raise KeyError(k)
        if self._l is None: dict.__delitem__(self, f)
        else: del self._l[f]
    def __contains__(self, k): return self._find(k) is not MISS
    def get(self, k, d=None):
        f = self._find(k)
        if f is MISS: return d
        return dict.__getitem__(self, f) if self._l is None else self._l[f][1]
    def pop(self, k, *d):
        f = self._find(k)
        if f is MISS:
            if d: return d[0]
            raise KeyError(k)
        if self._l is None: return dict.pop(self, f)
        return self._l.pop(f)[1]
    def popitem(self):
        if self._l is None: return dict.popitem(self)
        if not self._l: raise KeyError('empty')
        return tuple(self._l.pop())
    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is MISS: self[k] = d; return d
        return dict.__getitem__(self, f) if self._l is None else self._l[f][1]
    def __len__(self): return dict.__len__(self) if self._l is None else len(self._l)
    def __bool__(self): return len(self) > 0
    def __iter__(self): return dict.__iter__(self) if self._l is None else iter(self.keys())
    def keys(self): return dict.keys(self) if self._l is None else Keys(self)
    def values(self): return dict.values(self) if self._l is None else [v for _, v in self._l]
    def items(self): return dict.items(self) if self._l is None else [(k, v) for k, v in self._l]
    def __reversed__(self): return reversed(list(self.keys()))
    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, dict) or hasattr(o, 'keys'):
                for q in list(o.keys()): self[q] = o[q]
            else:
                for q, v in o: self[q] = v
        for q, v in k.items(): self[q] = v
    def clear(self): dict.clear(self); self._l = None
    def copy(self):
        d = SymDict(); 
        if self._l is None: dict.update(d, self)
        else: d._l = [list(p) for p in self._l]
        return d
    __copy__ = copy
    def __deepcopy__(self, memo):
        import copy
        d = SymDict()
        memo[id(self)] = d
        for k, v in list(self.items()): d._raw_set(copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return d
    def _raw_set(self, k, v):
        """insert a key known to be absent"""
        if self._l is None:
            if not _symkey(k): dict.__setitem__(self, k, v); return
            self._l = [list(p) for p in dict.items(self)]; dict.clear(self)
        self._l.append([k, v])
    def __eq__(self, o):
        if not isinstance(o, dict): return False
        if len(self) != len(o): return False
        o = o if isinstance(o, SymDict) else SymDict(o)
        for k, v in list(self.items()):
            f = o.get(k, MISS)
            if f is MISS or not v == f: return False
        return True
    def __ne__(self, o): return not self == o
    def __or__(self, o): d = self.copy(); d.update(o); return d
    def __ror__(self, o): d = SymDict(o); d.update(self); return d
    def __ior__(self, o): self.update(o); return self
    __hash__ = None
    def __repr__(self): return '{%s}' % ', '.join('%r: %r' % p for p in self.items())
    @classmethod
    def fromkeys(cls, ks, v=None): return SymDict((k, v) for k in ks)

class Keys(list):
    """key view of a list-mode SymDict"""
    def __init__(self, d): list.__init__(self, [k for k, _ in d._l])
    def __contains__(self, k): return any(key_eq(k, q) for q in self)
    def __and__(self, o): return SymSet(self) & o
    def __or__(self, o): return SymSet(self) | o
    def __sub__(self, o): return SymSet(self) - o
    def __xor__(self, o): return SymSet(self) ^ o

class SymDefaultDict(SymDict):
    __slots__ = ('default_factory',)
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        SymDict.__init__(self, *a, **k)
    def __missing__(self, k):
        if self.default_factory is None: raise KeyError(k)
        self[k] = v = self.default_factory()
        return v

def eqx(a, b):
    """a == b as True / False / a z3 expression, or None when only a comparison with branching can tell."""
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if not isinstance(a, SymSeq): a, b = b, a
        s = seq_of(b, a.kind)
        if s is None: return None if is_sym(b) else False
        if len(s) != len(a.chars): return False
        conj = []
        for x, y in zip(a.chars, s):
            if isinstance(x, int) and isinstance(y, int):
                if x != y: return False
            elif x is not y: conj.append(x == y)
        return True if not conj else z3.And(conj) if len(conj) > 1 else conj[0]
    if _symkey(a) or _symkey(b): return None
    return a == b

def memberx(x, items):
    """x is one of items, as True / False / a z3 expression, or None."""
    if not isinstance(x, SymSeq): return None
    dis = []
    for i in items:
        e = eqx(x, i)
        if e is None: return None
        if e is True: return True
        if e is not False: dis.append(e)
    return False if not dis else z3.Or(dis) if len(dis) > 1 else dis[0]

class SymSet:
    """set accepting symbolic elements (insertion ordered).  Elements given on construction are only compared with one another
    when the number or the sequence of the elements matters."""
    def __init__(self, items=()):
        self._d = SymDict(); self._p = None
        p = [i for i in items]
        if any(isinstance(i, SymSeq) for i in p): self._p = p
        else:
            for i in p: self._d[i] = None
    @property
    def d(self):
        if self._p is not None:
            p, self._p = self._p, None
            for i in p: self._d[i] = None
        return self._d
    @d.setter
    def d(self, v): self._d = v; self._p = None
    def _all(self): return self._p if self._p is not None else list(self._d.keys())
    def add(self, x): self.d[x] = None
    def remove(self, x): del self.d[x]
    def discard(self, x): self.d.pop(x, None)
    def pop(self): k = list(self.d.keys())[0]; del self.d[k]; return k
    def clear(self): self.d.clear()
    def copy(self): return SymSet(self)
    __copy__ = copy
    def __deepcopy__(self, memo): return SymSet(self)
    def __contains__(self, x):
        e = memberx(x, self._all())
        if e is None: return x in self.d
        return e if isinstance(e, bool) else br(e)
    def __iter__(self): return iter(list(self.d.keys()))
    def __len__(self): return len(self.d)
    def update(self, *os):
        for o in os:
            for x in o: self.add(x)
    def __or__(self, o): r = SymSet(self); r.update(o); return r
    __ror__ = __or__
    def __and__(self, o): o = o if isinstance(o, SymSet) else SymSet(o); return SymSet(x for x in self if x in o)
    __rand__ = __and__
    def __sub__(self, o): o = o if isinstance(o, SymSet) else SymSet(o); return SymSet(x for x in self if x not in o)
    def __rsub__(self, o): return SymSet(o) - self
    def __xor__(self, o): o = o if isinstance(o, SymSet) else SymSet(o); return (self - o) | (o - self)
    __rxor__ = __xor__
    def __ior__(self, o): self.update(o); return self
    def __iand__(self, o): self.d = (self & o).d; return self
    def __isub__(self, o): self.d = (self - o).d; return self
    union = lambda self, *os: _fold(self, os, '__or__')
    intersection = lambda self, *os: _fold(self, os, '__and__')
    difference = lambda self, *os: _fold(self, os, '__sub__')
    def symmetric_difference(self, o): return self ^ o
    def difference_update(self, *os): self.d = self.difference(*os).d
    def intersection_update(self, *os): self.d = self.intersection(*os).d
    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        con = []; it = o._all()
        for x in self._all():
            e = memberx(x, it)
            if e is None: e = x in o
            if e is False: return False
            if e is not True: con.append(e)
        return True if not con else br(z3.And(con) if len(con) > 1 else con[0])
    def issuperset(self, o): return (o if isinstance(o, SymSet) else SymSet(o)).issubset(self)
    def isdisjoint(self, o): return not any(x in self for x in o)
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)
    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)): return False
        return len(self) == len(o) and self.issubset(o)
    def __ne__(self, o): return not self == o
    def __hash__(self): unsupported('hash of a set')
    def __bool__(self): return len(self._all()) > 0
    def __repr__(self): return 'SymSet(%r)' % (self._all(),)

def _fold(s, os, op):
    r = SymSet(s)
    for o in os: r = getattr(r, op)(o if isinstance(o, SymSet) else SymSet(o))
    return r
