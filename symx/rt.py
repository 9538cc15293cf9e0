"""Runtime called by rewritten code, and the replacement builtins."""
import builtins as B
import z3
from . import core, values as V
from .values import SymSeq, SymNum, NumStr, Rope, StrRope, JsonText, SymDict, SymSet, SymDefaultDict, is_sym, unsupported

STR_METHODS = frozenset('''join split rsplit replace startswith endswith strip lstrip rstrip find rfind index rindex count
 encode decode partition rpartition removeprefix removesuffix format lower upper splitlines ljust rjust center zfill
 isdigit isalpha isalnum isspace translate expandtabs title capitalize'''.split())

def _anysym(x, depth=2):
    if is_sym(x): return True
    if depth and isinstance(x, (tuple, list)): return any(_anysym(i, depth - 1) for i in x)
    return False

def _symargs(args):
    for a in args:
        t = type(a)
        if t is not str and t is not int and t is not bytes and _anysym(a): return True
    return False

def callm(obj, name, *args, **kw):
    """obj.name(*args, **kw) for method names of str/bytes."""
    t = type(obj)
    if t is str or t is bytes or t is bytearray:
        if name == 'join' and len(args) == 1:
            items = B.list(args[0])
            if any(is_sym(i) for i in items):
                if any(isinstance(i, (Rope, JsonText)) for i in items):
                    out = obj[:0]
                    for n, i in enumerate(items): out = (out + obj if n else out) + i
                    return out
                return V.lift(obj).join(items)
            return obj.join(items)
        if name == 'format':
            if _anysym(args) or any(is_sym(v) for v in kw.values()): return _format(obj, args, kw)
        elif _symargs(args):
            if t is not str and any(isinstance(a, Rope) for a in args):
                return getattr(Rope.of(obj), name)(*args, **kw)
            return getattr(V.lift(obj), name)(*args, **kw)
    elif obj is str_p or obj is bytes_p:      # str.join('/', x) and friends
        return callm(args[0], name, *args[1:], **kw)
    return getattr(obj, name)(*args, **kw)

def _format(tmpl, args, kw):
    import string
    out = ''; auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        out = out + lit
        if field is None: continue
        if field == '': v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        else: v = kw[field]
        out = out + fmt(v, spec or '', conv)
    return out

def fmt(v, spec='', conv=None):
    if conv == 'r' and is_sym(v) and not isinstance(v, SymNum): unsupported('repr of a symbolic value')
    if is_sym(v):
        if isinstance(v, SymNum) and v.is_real and spec[:1] == '.' and spec[-1:] == 'f' and spec[1:-1].isdigit(): return str_p(B.round(v, int(spec[1:-1])))
        if isinstance(v, SymNum) and not v.is_real and spec == 'd': return str_p(v)
        if spec: unsupported('format spec on a symbolic value')
        return str_p(v)
    if conv == 'r': v = B.repr(v)
    elif conv == 's': v = str_p(v)
    elif not spec and isinstance(type(v).__str__, _FN) and type(v).__format__ is object.__format__: return str_p(v)
    return B.format(v, spec)

def fstr(*parts):
    out = ''
    for p in parts: out = _cat(out, p)
    return out

def mod(a, b):
    if isinstance(a, (str, bytes)):
        if _anysym(b) or isinstance(b, dict) and V.has_sym(b) or any(isinstance(type(x).__str__, _FN) for x in (b if isinstance(b, tuple) else (b,))): return _percent(a, b)
    return a % b

def _cat(a, b):
    """a + b; the text of a number alone stays one"""
    return b if isinstance(a, str) and a == '' else a if isinstance(b, str) and b == '' else a + b

def _percent(t, args):
    import re
    if isinstance(t, bytes): return _percentb(t, args)
    if not isinstance(args, tuple): args = (args,)
    out = ''; pos = 0; i = 0
    for m in re.finditer(r'%(\.\d+)?([sdrif%])', t):
        out = _cat(out, t[pos:m.start()]); pos = m.end()
        if m.group(2) == '%': out = out + '%'; continue
        v = args[i]; i += 1
        if m.group(2) == 's' or (m.group(2) in 'dir' and isinstance(v, SymNum)): out = _cat(out, fmt(v))
        elif m.group(2) == 'f' and isinstance(v, SymNum):
            out = _cat(out, fmt(B.round(v, int(m.group(1)[1:]) if m.group(1) else 6)))
        else: out = _cat(out, m.group(0) % v)
    return _cat(out, t[pos:])

def _percentb(t, args):
    import re
    if not isinstance(args, tuple): args = (args,)
    out = b''; pos = 0; i = 0
    for m in re.finditer(rb'%([a-z%])', t):
        out = out + t[pos:m.start()]; pos = m.end()
        c = m.group(1)
        if c == b'%': out = out + b'%'; continue
        v = args[i]; i += 1
        if c in b'bs': out = out + (bytes_p(v) if not isinstance(v, bytes) else v)
        elif c in b'di' and isinstance(v, SymNum): out = out + fmt(v).encode()
        elif is_sym(v): unsupported('bytes format of a symbolic value')
        else: out = out + (m.group(0) % v)
    if i != len(args): raise TypeError('not all arguments converted during bytes formatting')
    return out + t[pos:]

_VIEWS = (type({}.keys()), type({}.items()))
def setop(name, a, b):
    """a - b, a & b, a | b, a ^ b: views of dicts and native sets do not know symbolic elements"""
    if isinstance(a, _VIEWS) or isinstance(a, (set, frozenset)) and not isinstance(b, (set, frozenset)): a = SymSet(a)
    return _SETOPS[name](a, b)
import operator as _op
_SETOPS = {'Sub': _op.sub, 'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor}

def contains(item, cont):
    if isinstance(cont, (str, bytes)):
        if is_sym(item):
            if isinstance(item, Rope): unsupported('opaque bytes in literal')
            return V.lift(cont).__contains__(item)
        return item in cont
    if isinstance(cont, (list, tuple, dict, set, frozenset, type({}.keys()))) and not isinstance(cont, V.Keys):
        e = V.memberx(item, cont.keys() if isinstance(cont, dict) else cont)
        if e is not None: return e if isinstance(e, bool) else V.br(e)
    if isinstance(cont, (set, frozenset)) or type(cont) is dict or isinstance(cont, type({}.keys())):
        if V._symkey(item): return any(V.key_eq(item, q) for q in cont)
        return item in cont
    return item in cont

def getitem(o, k):
    if type(o) is dict and V._symkey(k): return SymDict(o)[k]
    return o[k]

def mkdict(pairs):
    d = SymDict()
    for k, v in pairs: d[k] = v
    return d

def mkdict_merge(items):
    d = SymDict()
    for k, v in items:
        if k is STAR: d.update(v)
        else: d[k] = v
    return d
STAR = object()
def dictkw(f, args, kw):
    if f is dict_p or isinstance(f, type) and issubclass(f, B.dict):
        d = f(*args); d.update(kw)
        return d
    return f(*args, **kw)

def mkset(items): return SymSet(items)

# ------------------------------------------------------------------------------------------------ builtins
class _TypeProxy(type):
    def __instancecheck__(cls, x): return isinstance(x, cls._types) and cls._extra(x)
    def __subclasscheck__(cls, c): return c is cls or issubclass(c, cls._types[0])
    def __eq__(cls, o): return o is cls or o is cls._types[0]
    def __hash__(cls): return B.hash(cls._types[0])
    def __getattr__(cls, n): return getattr(cls._types[0], n)
    def __getitem__(cls, k): return cls._types[0][k]
    def __or__(cls, o): return B.object
    __ror__ = __or__
    def __repr__(cls): return repr(cls._types[0])

class str_p(metaclass=_TypeProxy):
    _types = (str, SymSeq, NumStr, JsonText, StrRope)
    _extra = staticmethod(lambda x: not isinstance(x, SymSeq) or x.kind == 's')
    def __new__(cls, x='', *a, **k):
        if isinstance(x, SymNum): return NumStr(x)
        if isinstance(x, (NumStr, JsonText, StrRope)): return _nodecode(x, a, k)
        if isinstance(x, SymSeq):
            if x.kind == 's': return _nodecode(x, a, k)
            if a or k: return x.decode(*a, **k)
            unsupported('str(symbolic bytes)')
        if isinstance(x, Rope):
            if a or k: return x.decode(*a)
            unsupported('str(opaque bytes)')
        if not a and not k and type(x) not in _PLAIN:
            f = type(x).__str__
            if isinstance(f, _FN): return f(x)      # may give symbolic text
            if isinstance(x, BaseException) and len(x.args) == 1 and is_sym(x.args[0]): return str_p(x.args[0])
        return B.str(x, *a, **k)
import types as _types
_FN = _types.FunctionType
_PLAIN = frozenset([str, int, float, bytes, bool, type(None), list, tuple, dict])
def _nodecode(x, a, k):
    if a or k: raise TypeError('decoding str is not supported')
    return x

class bytes_p(metaclass=_TypeProxy):
    _types = (bytes, SymSeq, Rope)
    _extra = staticmethod(lambda x: x.kind == 'b' if isinstance(x, SymSeq) else not isinstance(x, StrRope))
    def __new__(cls, x=b'', *a, **k):
        if isinstance(x, (JsonText, NumStr, StrRope)): return x.encode()
        if isinstance(x, SymSeq):
            if x.kind == 'b': return x
            if not a and not k: raise TypeError('string argument without an encoding')
            return x.encode(*a, **k)
        if isinstance(x, Rope): return x
        if isinstance(x, (list, tuple)) and any(isinstance(i, SymNum) for i in x):
            return V.mk('b', tuple(V.raw(i) for i in x))
        if hasattr(x, '_symx_bytes'): return x._symx_bytes()
        return B.bytes(x, *a, **k)

class bytearray_p(metaclass=_TypeProxy):
    _types = (bytearray,)
    _extra = staticmethod(lambda x: True)
    def __new__(cls, x=b'', *a):
        return SymByteArray(x)

class SymByteArray:
    def __init__(self, x=b''): self.v = bytes_p(x)
    def extend(self, o): self.v = self.v + o
    def __iadd__(self, o): self.v = self.v + (o.v if isinstance(o, SymByteArray) else o); return self
    def __add__(self, o): return SymByteArray(self.v + o)
    def __getitem__(self, i): return self.v[i]
    def __delitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.step is None: self.v = self.v[i.stop:]
        else: unsupported('bytearray deletion')
    def __len__(self): return B.len(self.v)
    def __bool__(self): return bool(len_p(self.v) > 0)
    def __contains__(self, x): return contains(x, self.v)
    def _symx_bytes(self): return self.v
    def __eq__(self, o): return self.v == (o.v if isinstance(o, SymByteArray) else o)
    def __getattr__(self, n): return lambda *a, **k: callm(self.v, n, *a, **k)

class int_p(metaclass=_TypeProxy):
    _types = (int, SymNum)
    _extra = staticmethod(lambda x: not isinstance(x, SymNum) or not x.is_real)
    def __new__(cls, x=0, *a, **k):
        if isinstance(x, SymNum): return SymNum(z3.ToInt(x.e)) if x.is_real else x
        if isinstance(x, NumStr):
            if x.num.is_real: raise ValueError('invalid literal for int()')
            return x.num
        if isinstance(x, SymSeq):
            if a or k: unsupported('int(symbolic string, base)')
            return x.to_int()
        return B.int(x, *a, **k)

class float_p(metaclass=_TypeProxy):
    _types = (float, SymNum)
    _extra = staticmethod(lambda x: not isinstance(x, SymNum) or x.is_real)
    def __new__(cls, x=0.0):
        if isinstance(x, NumStr): x = x.num
        if isinstance(x, SymNum): return x if x.is_real else SymNum(z3.ToReal(x.e))
        if isinstance(x, SymSeq): unsupported('float(symbolic string)')
        return B.float(x)

class dict_p(metaclass=_TypeProxy):
    _types = (dict,)
    _extra = staticmethod(lambda x: True)
    def __new__(cls, *a, **k): return SymDict(*a, **k)
    fromkeys = SymDict.fromkeys

class set_p(metaclass=_TypeProxy):
    _types = (set, SymSet)
    _extra = staticmethod(lambda x: True)
    def __new__(cls, x=()): return SymSet(x)

class frozenset_p(metaclass=_TypeProxy):
    _types = (frozenset, SymSet)
    _extra = staticmethod(lambda x: True)
    def __new__(cls, x=()): return SymSet(x)

def len_p(x):
    if isinstance(x, (Rope, JsonText)): return x.length()
    if isinstance(x, SymByteArray): return len_p(x.v)
    return B.len(x)

def ord_p(c):
    if isinstance(c, SymSeq):
        if len(c.chars) != 1: raise TypeError('ord() expected a character')
        return V.mknum(c.chars[0])
    return B.ord(c)

def chr_p(i):
    if isinstance(i, SymNum): return V.mk('s', (i.e,))
    return B.chr(i)

def type_p(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymSeq): return str_p if x.kind == 's' else bytes_p
        if isinstance(x, (NumStr, JsonText, StrRope)): return str_p
        if isinstance(x, Rope): return bytes_p
        if isinstance(x, SymNum): return float_p if x.is_real else int_p
        t = B.type(x)
        return {str: str_p, bytes: bytes_p, int: int_p, float: float_p, SymDict: dict_p, dict: dict_p, SymSet: set_p}.get(t, t)
    return B.type(*a)

def abs_p(x): return abs(x)

def max_p(*a, **k): return B.max(*a, **k)

def sum_p(it, start=0):
    for x in it: start = start + x
    return start

def hash_p(x):
    return B.hash(x)

class SymRange:
    """range() with a symbolic bound: gone through step by step."""
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s
    def __iter__(self):
        i = self.a
        while i < self.b if self.s > 0 else i > self.b: yield i; i = i + self.s
    def __len__(self): return B.sum(1 for i in self)
    def __bool__(self): return bool(self.a < self.b if self.s > 0 else self.a > self.b)
    def __contains__(self, x): return any(x == i for i in self)
    def __reversed__(self): return reversed(list(self))
    def __getitem__(self, k): return list(self)[k]

def range_p(*a):
    if not any(isinstance(x, SymNum) for x in a): return B.range(*a)
    if any(isinstance(x, SymNum) and x.is_real for x in a): raise TypeError("'float' object cannot be interpreted as an integer")
    a, b, s = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(s, SymNum): s = s.__index__()
    if s == 0: raise ValueError('range() arg 3 must not be zero')
    return SymRange(a, b, s)
