"""Regular expressions over symbolic strings: backtracking over the sre parse tree, characters decided by the solver."""
import re as _re
try: from re import _parser as sre_parse, _constants as sc
except ImportError: import sre_parse, sre_constants as sc
from . import values as V
from .values import SymSeq, br, unsupported
import z3

class SymMatch:
    def __init__(self, s, groups, names, pat):
        self.s = s; self.g = groups; self.names = names; self.re = pat; self.string = s; self.lastindex = None
    def _i(self, k): return self.names[k] if isinstance(k, str) else k
    def span(self, k=0): return self.g.get(self._i(k), (-1, -1))
    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]
    def group(self, *ks):
        if not ks: ks = (0,)
        r = tuple(None if self.span(k)[0] < 0 else self.s[self.span(k)[0]:self.span(k)[1]] for k in ks)
        return r[0] if len(r) == 1 else r
    __getitem__ = lambda self, k: self.group(k)
    def groups(self, d=None): return tuple(d if self.group(i) is None else self.group(i) for i in range(1, self.re.groups + 1))
    def groupdict(self, d=None): return {k: self.group(k) for k in self.names}

def _cat(c, av):
    if isinstance(c, int):
        ch = chr(c)
        return bool(_re.match({sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
                               sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[av], ch))
    neg = av in (sc.CATEGORY_NOT_DIGIT, sc.CATEGORY_NOT_SPACE, sc.CATEGORY_NOT_WORD)
    if br(c >= 128): unsupported('regex category on a non-ASCII symbolic character')
    if av in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT): e = z3.And(c >= 48, c <= 57)
    elif av in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE): e = z3.Or(z3.And(c >= 9, c <= 13), c == 32, z3.And(c >= 28, c <= 31))
    else: e = z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95)
    r = br(e)
    return not r if neg else r

class Matcher:
    def __init__(self, pat, flags):
        self.tree = sre_parse.parse(pat, flags)
        self.flags = self.tree.state.flags
        if self.flags & sc.SRE_FLAG_IGNORECASE: unsupported('case-insensitive regex on symbolic text')
    def item(self, cs, i, av):
        neg = False; hit = False
        for op, a in av:
            if op is sc.NEGATE: neg = True
            elif op is sc.LITERAL:
                if V.ceq(cs[i], a): hit = True; break
            elif op is sc.RANGE:
                if V.crange(cs[i], a[0], a[1]): hit = True; break
            elif op is sc.CATEGORY:
                if _cat(cs[i], a): hit = True; break
            else: unsupported('regex class %s' % op)
        return hit != neg
    def seq(self, nodes, k, cs, i, g, cont):
        """yields every (end, groups) of nodes[k:] matched at i followed by cont"""
        if k == len(nodes):
            yield from cont(i, g); return
        op, av = nodes[k]
        nxt = lambda j, g2: self.seq(nodes, k + 1, cs, j, g2, cont)
        n = len(cs)
        if op is sc.LITERAL:
            if i < n and V.ceq(cs[i], av): yield from nxt(i + 1, g)
        elif op is sc.NOT_LITERAL:
            if i < n and not V.ceq(cs[i], av): yield from nxt(i + 1, g)
        elif op is sc.ANY:
            if i < n and (self.flags & sc.SRE_FLAG_DOTALL or not V.ceq(cs[i], 10)): yield from nxt(i + 1, g)
        elif op is sc.IN:
            if i < n and self.item(cs, i, av): yield from nxt(i + 1, g)
        elif op is sc.BRANCH:
            for alt in av[1]: yield from self.seq(list(alt), 0, cs, i, g, nxt)
        elif op is sc.SUBPATTERN:
            gid = av[0]
            def done(j, g2, i=i):
                if gid is not None: g2 = dict(g2); g2[gid] = (i, j)
                return nxt(j, g2)
            yield from self.seq(list(av[3]), 0, cs, i, g, done)
        elif op is getattr(sc, 'ATOMIC_GROUP', None):
            for j, g2 in self.seq(list(av), 0, cs, i, g, lambda j, g2: iter([(j, g2)])):
                yield from nxt(j, g2); break
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            lo, hi, sub = av; sub = list(sub)
            hi = n - i + lo if hi is sc.MAXREPEAT else hi
            def rep(cnt, j, g2):
                more = lambda: self.seq(sub, 0, cs, j, g2, lambda j2, g3: rep(cnt + 1, j2, g3) if j2 > j or cnt < lo else iter(()))
                if op is sc.MIN_REPEAT:
                    if cnt >= lo: yield from nxt(j, g2)
                    if cnt < hi: yield from more()
                else:
                    if cnt < hi: yield from more()
                    if cnt >= lo: yield from nxt(j, g2)
            yield from rep(0, i, g)
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if i == 0: yield from nxt(i, g)
            elif av is sc.AT_END_STRING:
                if i == n: yield from nxt(i, g)
            elif av is sc.AT_END:
                if i == n or (i == n - 1 and V.ceq(cs[i], 10)): yield from nxt(i, g)
            else: unsupported('regex anchor %s' % av)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] < 0: unsupported('look-behind')
            ok = None
            for ok in self.seq(list(av[1]), 0, cs, i, g, lambda j, g2: iter([(j, g2)])): break
            if (ok is not None) == (op is sc.ASSERT): yield from nxt(i, ok[1] if ok and op is sc.ASSERT else g)
        else: unsupported('regex %s' % op)
    def match_at(self, cs, i, full=False):
        for j, g in self.seq(list(self.tree), 0, cs, i, {}, lambda j, g: iter([(j, g)]) if not full or j == len(cs) else iter(())):
            g = dict(g); g[0] = (i, j)
            return g
        return None

class Pattern:
    def __init__(self, pat, flags=0):
        self.real = _re.compile(pat, flags); self.m = None
        self.pattern = pat; self.flags = self.real.flags; self.groups = self.real.groups; self.groupindex = self.real.groupindex
        self._f = flags
    def _mm(self):
        if self.m is None: self.m = Matcher(self.pattern, self._f)
        return self.m
    def _run(self, s, how, pos=0):
        if not isinstance(s, SymSeq):
            if V.is_sym(s): unsupported('regex on %s' % type(s).__name__)
            return getattr(self.real, how)(s, pos)
        m = self._mm()
        if how == 'search':
            for i in range(pos, len(s.chars) + 1):
                g = m.match_at(s.chars, i)
                if g: return SymMatch(s, g, self.groupindex, self)
            return None
        g = m.match_at(s.chars, pos, how == 'fullmatch')
        return SymMatch(s, g, self.groupindex, self) if g else None
    def match(self, s, pos=0): return self._run(s, 'match', pos)
    def fullmatch(self, s, pos=0): return self._run(s, 'fullmatch', pos)
    def search(self, s, pos=0): return self._run(s, 'search', pos)
    def finditer(self, s):
        if not isinstance(s, SymSeq): yield from self.real.finditer(s); return
        i = 0
        while i <= len(s.chars):
            m = self._run(s, 'search', i)
            if m is None: return
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1
    def findall(self, s):
        if not isinstance(s, SymSeq): return self.real.findall(s)
        return [m.group() if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups() for m in self.finditer(s)]
    def split(self, s, maxsplit=0):
        if not isinstance(s, SymSeq): return self.real.split(s, maxsplit)
        out = []; pos = 0; n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit: break
            out.append(s[pos:m.start()]); out += m.groups(); pos = m.end(); n += 1
        out.append(s[pos:])
        return out
    def sub(self, rep, s, count=0):
        if not isinstance(s, SymSeq) and not V.is_sym(rep): return self.real.sub(rep, s, count)
        s = V.lift(s); out = '' if s.kind == 's' else b''; pos = 0; n = 0
        for m in self.finditer(s):
            if count and n >= count: break
            r = rep(m) if callable(rep) else rep
            if isinstance(r, (str, bytes)) and (b'\\' if isinstance(r, bytes) else '\\') in r: unsupported('template in re.sub')
            out = out + s[pos:m.start()] + r; pos = m.end(); n += 1
        return out + s[pos:]

_cache = {}
def compile(p, flags=0):
    if isinstance(p, (Pattern,)): return p
    if V.is_sym(p): unsupported('symbolic regular expression')
    k = (p, int(flags))
    if k not in _cache: _cache[k] = Pattern(p, flags)
    return _cache[k]
def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def search(p, s, flags=0): return compile(p, flags).search(s)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
escape = _re.escape
error = _re.error
for _f in 'IGNORECASE I MULTILINE M DOTALL S VERBOSE X ASCII A UNICODE U'.split(): globals()[_f] = getattr(_re, _f)
