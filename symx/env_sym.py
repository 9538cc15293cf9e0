"""Symbolic environment: per-process module loader and the stand-ins for everything outside /repo."""
import ast, base64 as real_b64, builtins as B, copy as real_copy, datetime as real_dt, getpass, hashlib as real_hashlib, hmac, importlib, io as real_io
import json as real_json, os as real_os, re as real_re, shutil as real_shutil, sqlite3, struct as real_struct, sys as real_sys, time as real_time, types
import z3
from . import core, rt, values as V, symre, fakes, simfs
from .rewrite import compile_source
from .values import SymSeq, SymNum, NumStr, Rope, JsonText, SymDict, SymSet, SymDefaultDict, Atom, is_sym, has_sym, unsupported
from .world import World, Proc, SimCrash

REPO = real_os.environ.get('SYMX_REPO', '/repo')
VERIF = real_os.path.dirname(real_os.path.dirname(real_os.path.abspath(__file__)))
_code = {}

def repo_code(modname):
    if modname in _code: return _code[modname]
    base = real_os.path.join(VERIF if modname.split('.')[0] == 'checks' else REPO, *modname.split('.'))
    for f, pkg in ((base + '.py', False), (real_os.path.join(base, '__init__.py'), True)):
        if real_os.path.isfile(f):
            with open(f, encoding='utf8') as fh: src = fh.read()
            _code[modname] = (compile_source(src, f, modname), f, pkg)
            return _code[modname]
    return None

def stdlib_code(name):
    k = 'stdlib:' + name
    if k not in _code:
        f = real_os.path.join(real_os.path.dirname(real_os.path.abspath(__file__)), 'sym_pathlib.py') if name == 'pathlib' else importlib.import_module(name).__file__
        with open(f, encoding='utf8') as fh: src = fh.read()
        _code[k] = (compile_source(src, f, name), f, False)
    return _code[k]

def preload():
    """Compile everything once, before worker processes are forked."""
    for d, _, fs in real_os.walk(real_os.path.join(REPO, 'bversion')):
        for f in fs:
            if f.endswith('.py'):
                rel = real_os.path.relpath(real_os.path.join(d, f), REPO)[:-3].replace('/', '.')
                if rel.endswith('.__init__'): rel = rel[:-9]
                repo_code(rel)
    for n in ('posixpath', 'genericpath', 'fnmatch'): stdlib_code(n)

PASS = set('''typing typing_extensions abc errno stat struct binascii math string enum operator warnings numbers keyword reprlib
 itertools contextlib functools types heapq bisect weakref unicodedata traceback textwrap signal locale platform argparse
 __future__ dataclasses codecs encodings ast inspect gc select html ipaddress decimal fractions statistics array queue urllib
 urllib.parse urllib.error http http.client ssl concurrent concurrent.futures'''.split())
REWRITE = set(['pathlib', 'posixpath', 'genericpath', 'fnmatch', 'glob', 'bisect', 'filecmp'])

def native(x):
    if isinstance(x, dict): return {native(k): native(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [native(v) for v in x]
    return x

# ------------------------------------------------------------------------------------------------ sqlite codec
class SymCodec(fakes.Codec):
    """Maps symbolic cell values to tokens; equality and order questions are put to the solver when a value first meets the database."""
    def st(self): return core.cur.path_state.setdefault('db', {'tok': {}, 'strs': [], 'nums': [], 'n': 0, 'conc': set()})
    def sql(self, s):
        if isinstance(s, str): return s
        unsupported('symbolic SQL text')
    def enc(self, v):
        if isinstance(v, (SymSeq, JsonText, Rope)) or isinstance(v, NumStr): return self._str(v)
        if isinstance(v, SymNum) or isinstance(v, float): return self._num(v)
        if isinstance(v, (str, bytes)):
            st = self.st()
            if (type(v), v) in st['conc']: return v       # already known to differ from every symbolic string in the database
            for q, t in st['strs']:
                if is_sym(q) and _kind(q) == _kind(v) and bool(q == v): return t
            st['strs'].append((v, v)); st['conc'].add((type(v), v)); return v
        return v
    def _str(self, v):
        st = self.st()
        for q, t in st['strs']:
            if q is v: return t
            if _kind(q) == _kind(v) and bool(v == q): return t
        st['n'] += 1
        t = '\x01tok%d\x01' % st['n']
        if _kind(v) == 'b': t = t.encode()
        st['tok'][t] = v; st['strs'].append((v, t))
        return t
    def _num(self, v):
        st = self.st(); nums = st['nums']
        if not isinstance(v, SymNum) and not any(isinstance(q, SymNum) for q, _ in nums):
            if not any(q == v for q, _ in nums): nums.append((v, v)); nums.sort(key=lambda p: p[1])
            return v
        lo, hi = None, None
        for q, r in nums:     # ascending
            if bool(v == q): return r
            if bool(v < q): hi = r; break
            lo = r
        r = (lo + hi) / 2 if lo is not None and hi is not None else lo + 1e6 if lo is not None else hi - 1e6 if hi is not None else 1.5e9
        nums.append((v, r)); nums.sort(key=lambda p: p[1])
        st['tok'][r] = v
        return r
    def dec(self, v):
        if isinstance(v, (str, bytes, float)):
            t = core.cur.path_state.get('db')
            if t and v in t['tok']: return t['tok'][v]
        return v

def _kind(x):
    if isinstance(x, SymSeq): return x.kind
    if isinstance(x, V.StrRope): return 's'
    return 'b' if isinstance(x, (bytes, Rope)) else 's'

# ------------------------------------------------------------------------------------------------ world
class SymWorld(World):
    def __init__(self):
        super().__init__()
        self.fs = simfs.FS(self)
        self.codec = SymCodec()
        self.dbs = []
        self.inputs = []
        self.passwords = []
        self.rand = 0
        self.s3 = fakes.S3State()
        self.argv = ['bvn']
        self.out = []
        self.sock_factory = None
        self.hashes = []
        self.boxes = []
        self.thread_runner = None
    def sync_sql(self, con): con.execute('pragma synchronous=off')
    def close(self):
        for f in self.dbs:
            for s in ('', '-journal', '-wal', '-shm'):
                try: real_os.unlink(f + s)
                except OSError: pass
        self.dbs = []
    def fresh_bytes(self, n, tag='r'):
        self.rand += 1
        out = b''; i = 0
        while len(out) < n:
            out += real_hashlib.sha256(('%s:%d:%d' % (tag, self.rand, i)).encode()).digest(); i += 1
        return out[:n]
    def ideal(self, kind, data, size=32):
        """Ideal (injective) hash of possibly symbolic data: equal iff equal data."""
        if not has_sym(data):
            raw_ = data if isinstance(data, bytes) else repr(data).encode()
            for k, d, tok in self.hashes:
                if k == kind and has_sym(d) and _deq(d, data): return tok
            tok = real_hashlib.sha256(raw_).digest() if kind == 'sha256' and isinstance(data, bytes) else _expand(kind, raw_, size)
            if not any(k == kind and t == tok for k, d, t in self.hashes): self.hashes.append((kind, data, tok))
            return tok
        for k, d, tok in self.hashes:
            if k == kind and _deq(d, data): return tok
        tok = _expand(kind, b'symbolic %d' % len(self.hashes), size)
        self.hashes.append((kind, data, tok))
        return tok

def _deq(a, b):
    if isinstance(a, tuple): return isinstance(b, tuple) and len(a) == len(b) and all(_deq(x, y) for x, y in zip(a, b))
    if isinstance(b, tuple): return False
    if isinstance(a, (int, float)) or isinstance(b, (int, float)): return a == b
    if isinstance(a, V.StrRope) or isinstance(b, V.StrRope): return bool(a == b)
    if isinstance(a, Rope) or isinstance(b, Rope): return bool(Rope.of(a) == b) if Rope.of(a) is not None else False
    return bool(a == b)

def _expand(kind, data, size):
    out = b''; i = 0
    while len(out) < size: out += real_hashlib.sha256(kind.encode() + b'|%d|' % i + data).digest(); i += 1
    return out[:size]

class Hash:
    def __init__(self, w, name, data=b''): self.w = w; self.name = name; self.d = b''; self.update(data)
    digest_size = property(lambda s: {'sha256': 32, 'sha1': 20, 'md5': 16, 'sha512': 64}.get(s.name, 64))
    block_size = 64
    def update(self, x):
        if isinstance(x, (str, JsonText, V.StrRope)) or V.is_symstr(x): raise TypeError('Strings must be encoded before hashing')
        if hasattr(x, '_symx_bytes'): x = x._symx_bytes()
        if isinstance(x, (bytearray, memoryview)): x = bytes(x)
        self.d = self.d + x
    def digest(self):
        d = self.d
        if self.name == 'sha256': return self.w.ideal('sha256', d)
        if not has_sym(d): return real_hashlib.new(self.name, d).digest()
        return self.w.ideal(self.name, d, self.digest_size)
    def hexdigest(self): return self.digest().hex()
    def copy(self): return Hash(self.w, self.name, self.d)

# ------------------------------------------------------------------------------------------------ json
def json_norm(x):
    if isinstance(x, dict):
        d = SymDict()
        for k, v in x.items():
            if not isinstance(k, (str, SymSeq)):
                if isinstance(k, bool) or k is None or isinstance(k, (int, float)): k = real_json.dumps(k)
                else: raise TypeError('keys must be str, int, float, bool or None, not ' + type(k).__name__)
            elif isinstance(k, SymSeq) and k.kind == 'b': raise TypeError('keys must be str, not bytes')
            d[k] = json_norm(v)
        return d
    if isinstance(x, (list, tuple)): return [json_norm(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str, SymNum, NumStr, JsonText)): return x
    if isinstance(x, SymSeq) and x.kind == 's': return x
    if isinstance(x, V.Keys): return list(x)
    raise TypeError('Object of type %s is not JSON serializable' % ('bytes' if isinstance(x, (SymSeq, Rope)) else type(x).__name__))

def json_size(x):
    """The least and the greatest length of the JSON text."""
    if isinstance(x, dict): it = [y for k, v in x.items() for y in (json_size(k), json_size(v))]; extra = 2 + 2 * len(x) + 2 * max(len(x) - 1, 0)
    elif isinstance(x, list): it = [json_size(v) for v in x]; extra = 2 + 2 * max(len(it) - 1, 0)
    elif isinstance(x, SymSeq): it = [(1, 12) if not isinstance(c, int) else (len(real_json.dumps(chr(c))) - 2,) * 2 for c in x.chars]; extra = 2
    elif isinstance(x, SymNum): return (3, 25) if x.is_real else (1, 25)
    elif isinstance(x, NumStr): return (3, 30)
    elif isinstance(x, JsonText): return json_size(x.atom.data)[0] + 2, 2 * json_size(x.atom.data)[1] + 2
    else: return (len(real_json.dumps(x)),) * 2
    return sum(a for a, b in it) + extra, sum(b for a, b in it) + extra

def json_dumps(obj, **kw):
    n = json_norm(obj)
    if not has_sym(n): return real_json.dumps(native(n), **kw)
    if kw.get('sort_keys'):
        def srt(x):
            if isinstance(x, dict): return SymDict((k, srt(v)) for k, v in sorted(x.items(), key=lambda p: p[0]))
            return [srt(v) for v in x] if isinstance(x, list) else x
        n = srt(n)
    lo, hi = json_size(n) if not set(kw) - {'sort_keys'} else (2, 100000)
    if lo == hi: size = lo
    else:
        size = core.cur.fresh('jsonsize')
        core.cur.assume(z3.And(size >= lo, size <= hi), check=False)
    return JsonText(Atom(-1, size, 'json', real_copy.deepcopy(n), 'json' if not set(kw) - {'sort_keys'} else 'json with line breaks'))

def json_loads(x, **kw):
    if isinstance(x, JsonText): return real_copy.deepcopy(x.atom.data)
    if isinstance(x, Rope):
        w = x.whole()
        if w is None and any(g[0] == 'a' and g[1].kind == 'json' for g in x.segs):
            y = x.strip()
            w = y.atom if isinstance(y, JsonText) else y.whole() if isinstance(y, Rope) else None
        if w is not None and w.kind == 'json': return real_copy.deepcopy(w.data)
        raise real_json.JSONDecodeError('Expecting value', '', 0)
    if isinstance(x, NumStr): return x.num
    if isinstance(x, SymSeq): unsupported('JSON text with symbolic characters')
    if hasattr(x, '_symx_bytes'): return json_loads(x._symx_bytes(), **kw)
    return real_json.loads(x, object_pairs_hook=SymDict)

class SymBytesIO:
    def __init__(self, data=b''): self.d = data; self.pos = 0; self.closed = False
    def read(self, n=-1):
        rest = self.d[self.pos:] if not (isinstance(self.pos, int) and self.pos == 0) else self.d
        out = rest if n is None or (not is_sym(n) and n < 0) else rest[:n]
        self.pos = self.pos + rt.len_p(out)
        return out
    read1 = read
    def write(self, x):
        n = rt.len_p(self.d)
        if V._same(V.raw(self.pos), V.raw(n)): self.d = self.d + x
        else:
            end = self.pos + rt.len_p(x)
            self.d = self.d[:self.pos] + x + (self.d[end:] if not end >= n else b'')
        self.pos = self.pos + rt.len_p(x)
        return rt.len_p(x)
    def getvalue(self): return self.d
    getbuffer = getvalue
    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else rt.len_p(self.d) + off; return self.pos
    def tell(self): return self.pos
    def close(self): self.closed = True
    def flush(self): pass
    def truncate(self, n=None): self.d = self.d[:self.pos if n is None else n]
    def readable(self): return True
    writable = seekable = readable
    def writelines(self, ls):
        for l in ls: self.write(l)
    def readline(self):
        i = self.d[self.pos:].find(b'\n')
        return self.read() if i < 0 else self.read(i + 1)
    def readlines(self): return list(self)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self):
        while True:
            i = self.d[self.pos:].find(b'\n')
            l = self.read() if i < 0 else self.read(i + 1)
            if rt.len_p(l) == 0: return
            yield l

# ------------------------------------------------------------------------------------------------ ideal crypto
class Sodium:
    crypto_secretbox_KEYBYTES = 32; crypto_pwhash_SALTBYTES = 16; crypto_box_NONCEBYTES = 24; crypto_secretbox_NONCEBYTES = 24
    crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE = 4; crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE = 33554432; crypto_pwhash_ALG_ARGON2I13 = 1
    crypto_pwhash_OPSLIMIT_INTERACTIVE = 2; crypto_pwhash_MEMLIMIT_INTERACTIVE = 67108864; crypto_pwhash_ALG_DEFAULT = 2
    crypto_secretstream_xchacha20poly1305_KEYBYTES = 32; crypto_secretstream_xchacha20poly1305_ABYTES = 17
    crypto_secretstream_xchacha20poly1305_HEADERBYTES = 24
    crypto_secretstream_xchacha20poly1305_TAG_MESSAGE = 0; crypto_secretstream_xchacha20poly1305_TAG_FINAL = 3
    crypto_secretbox_MACBYTES = 16; crypto_sign_BYTES = 64; crypto_sign_PUBLICKEYBYTES = 32; crypto_sign_SECRETKEYBYTES = 64
    def __init__(self, w): self.w = w
    def randombytes(self, n): return self.w.fresh_bytes(n)
    def crypto_sign_keypair(self):
        seed = self.w.fresh_bytes(32, 'key'); pk = real_hashlib.sha256(b'pk' + seed).digest()
        return pk, seed + pk
    def crypto_sign_seed_keypair(self, seed):
        pk = real_hashlib.sha256(b'pk' + seed).digest(); return pk, seed + pk
    def crypto_sign_sk_to_pk(self, sk): return sk[32:]
    def _b(self, m): return m.encode('utf8') if isinstance(m, (str, SymSeq)) and not (isinstance(m, SymSeq) and m.kind == 'b') else m
    def crypto_sign_detached(self, m, sk):
        if rt.len_p(sk) != 64: raise ValueError
        return self.w.ideal('sig', (self._b(m), sk[32:]), 64)
    def crypto_sign_verify_detached(self, sig, msg, pk):
        if rt.len_p(sig) != 64 or rt.len_p(pk) != 32: raise ValueError
        for k, d, tok in list(self.w.hashes):     # a signature is valid only if it was produced by signing
            if k == 'sig' and _deq(tok, sig) and _deq(d, (self._b(msg), pk)): return
        raise ValueError
    def crypto_pwhash(self, outlen, passwd, salt, opslimit, memlimit, alg=1):
        if len(salt) != 16: raise ValueError
        return self.w.ideal('pwhash', (self._b(passwd), salt, opslimit, memlimit, alg), outlen)
    def crypto_secretbox(self, msg, nonce, k):
        if len(nonce) != 24 or len(k) != 32: raise ValueError
        ct = self.w.fresh_bytes(len(msg) + 16, 'box')
        self.w.boxes.append((k, nonce, ct, msg))
        return ct
    def crypto_secretbox_open(self, c, nonce, k):
        if len(nonce) != 24 or len(k) != 32: raise ValueError
        for k2, n2, c2, m in self.w.boxes:
            if len(c2) == len(c) and _deq(k2, k) and _deq(n2, nonce) and _deq(c2, c): return m
        raise ValueError
    # secret stream: a sealed chunk is an opaque atom that only opens under the same key, stream, position and associated data
    def crypto_secretstream_xchacha20poly1305_keygen(self): return self.w.fresh_bytes(32)
    def crypto_secretstream_xchacha20poly1305_init_push(self, key):
        if len(key) != 32: raise ValueError
        hdr = self.w.fresh_bytes(24, 'hdr')
        return ['push', key, hdr, 0], hdr
    def crypto_secretstream_xchacha20poly1305_push(self, state, message, ad, tag=0):
        a = Atom(0, V.raw(rt.len_p(message) + 17), 'enc', (state[1], state[2], state[3], message, ad, tag), 'enc')
        state[3] += 1
        return Rope.atom(a)
    def crypto_secretstream_xchacha20poly1305_init_pull(self, header, key):
        if not isinstance(rt.len_p(header), int) or len(header) != 24 or len(key) != 32: raise ValueError
        return ['pull', key, header, 0]
    def crypto_secretstream_xchacha20poly1305_pull(self, state, ciphertext, ad):
        if not isinstance(ciphertext, Rope): raise ValueError
        a = ciphertext.whole()
        if a is None or a.kind != 'enc': raise ValueError
        key, hdr, idx, msg, ad2, tag = a.data
        if not (_deq(key, state[1]) and _deq(hdr, state[2]) and idx == state[3]): raise ValueError
        if (ad is None) != (ad2 is None) or (ad is not None and not _deq(ad, ad2)): raise ValueError
        state[3] += 1
        return msg, tag

# ------------------------------------------------------------------------------------------------ loader
class SymProc(Proc):
    def __init__(self, world, name):
        super().__init__(world, name)
        self.env = simfs.OsEnv(world, self, world.fs)
        self.stubs = {}
        self.std = {}
        self.builtins = self._builtins()
        self.os, self.ospath, self.shutil = None, None, None
        self.os, self.ospath, self.shutil = self.env.modules(self)
        self.std['posixpath'].os = self.os
        self.stubs.update({'os': self.os, 'os.path': self.ospath, 'posixpath': self.ospath, 'shutil': self.shutil})

    # ---- builtins
    def _builtins(self):
        d = dict(vars(B))
        d.update(str=rt.str_p, bytes=rt.bytes_p, int=rt.int_p, float=rt.float_p, dict=rt.dict_p, set=rt.set_p, frozenset=rt.frozenset_p,
                 bytearray=rt.bytearray_p, len=rt.len_p, range=rt.range_p, ord=rt.ord_p, chr=rt.chr_p, type=rt.type_p, sum=rt.sum_p, open=simfs.fp(self.env.open),
                 print=self._print, input=self._input, __import__=self._import,
                 __rt_mkdict__=rt.mkdict, __rt_mkdict_merge__=rt.mkdict_merge, __rt_mkset__=rt.mkset, __rt_dictkw__=rt.dictkw, __rt_STAR__=rt.STAR,
                 __rt_contains__=rt.contains, __rt_mod__=rt.mod, __rt_setop__=rt.setop, __rt_fmt__=rt.fmt, __rt_fstr__=rt.fstr, __rt_callm__=rt.callm,
                 __rt_getitem__=rt.getitem, __rt_loop__=lambda: core.cur.loop(), __rt_enter__=_enter,
                 repr=lambda x: rt.str_p(x) if isinstance(x, SymNum) else str(x) if is_sym(x) else B.repr(x), memoryview=lambda x: x,
                 eval=lambda *a: unsupported('eval'), exec=lambda *a: unsupported('exec'))
        return d
    def _print(self, *a, **k):
        if len(self.world.out) < 400: self.world.out.append(a)
    def _input(self, prompt=''):
        if not self.world.inputs: raise EOFError('no more input')
        v = self.world.inputs.pop(0)
        return v() if callable(v) else v

    # ---- imports
    def stdlib(self, name):
        if name in self.std: return self.std[name]
        code, f, _ = stdlib_code(name)
        m = types.ModuleType(name); m.__file__ = f
        m.__dict__['__builtins__'] = self.builtins
        self.std[name] = m
        exec(code, m.__dict__)
        return m
    def load(self, name):
        if name in self.mods: return self.mods[name]
        c = repo_code(name)
        if c is None: raise ModuleNotFoundError('No module named %r' % name)
        code, f, pkg = c
        m = types.ModuleType(name); m.__file__ = f
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg: m.__path__ = [real_os.path.dirname(f)]
        m.__dict__['__builtins__'] = self.builtins
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            p = self.load(parent)
        self.mods[name] = m
        try: exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None); raise
        if '.' in name: setattr(p, leaf, m)
        return m
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.partition('.')[0]
        if top == 'bversion' or top == 'checks':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and repo_code(name + '.' + f): self.load(name + '.' + f)
                return m
            return self.load(top)
        m = self.module(name)
        return m if fromlist or '.' not in name else self.module(top)
    def module(self, name):
        if name in self.stubs: return self.stubs[name]
        f = getattr(self, '_m_' + name.replace('.', '_'), None)
        if f is not None: m = self.stubs[name] = f(); return m
        if name in REWRITE: return self.stdlib(name)
        if name in PASS: return importlib.import_module(name)
        if name == 'posix': raise ImportError(name)
        unsupported('import of ' + name)
    def _ns(self, name, **k):
        m = types.ModuleType(name); m.__dict__.update(k); return m
    def _m_sys(self):
        return self._ns('sys', argv=self.world.argv, exit=real_sys.exit, stdout=_Null(), stderr=_Null(), stdin=_Null(), version_info=real_sys.version_info, maxsize=real_sys.maxsize,
                        platform='linux', modules={}, path=[], version=real_sys.version, getfilesystemencoding=lambda: 'utf-8', byteorder='little',
                        exc_info=real_sys.exc_info, getsizeof=real_sys.getsizeof, executable='python', intern=lambda s: s,
                        getfilesystemencodeerrors=lambda: 'surrogateescape', audit=lambda *a: None, flags=real_sys.flags)
    def _m_typing_extensions(self):
        m = importlib.import_module('typing_extensions')
        return self._ns('typing_extensions', **dict({n: getattr(m, n) for n in dir(m) if n[:2] != '__'}, TypedDict=_TypedDict))
    def _m_typing(self):
        m = importlib.import_module('typing')
        return self._ns('typing', **dict({n: getattr(m, n) for n in dir(m) if n[:2] != '__'}, TypedDict=_TypedDict))
    def _m_errno(self): return importlib.import_module('errno')
    def _m_json(self):
        def load(f, **k): return json_loads(f.read())
        def dump(o, f, **k): f.write(json_dumps(o, **k))
        m = self._ns('json', dumps=json_dumps, loads=json_loads, load=load, dump=dump, JSONDecodeError=real_json.JSONDecodeError)
        m.decoder = m
        return m
    def _m_json_decoder(self): return self.module('json')
    def _m_hashlib(self):
        w = self.world
        k = {n: (lambda data=b'', n=n, **kw: Hash(w, n, data)) for n in 'sha256 sha1 md5 sha512 sha384 sha224 blake2b blake2s sha3_256'.split()}
        def file_digest(f, name):
            h = Hash(w, name if isinstance(name, str) else name().name)
            while True:
                b = f.read(65536)
                if rt.len_p(b) == 0: return h
                h.update(b)
        return self._ns('hashlib', new=lambda n, data=b'', **kw: Hash(w, n, data), file_digest=file_digest, **k)
    def _m_hmac(self): return self._ns('hmac', compare_digest=lambda a, b: a == b, new=lambda *a, **k: unsupported('hmac.new'))
    def _m_time(self):
        w = self.world
        def t(): return w.now()
        return self._ns('time', time=t, monotonic=t, perf_counter=t, process_time=t, time_ns=lambda: w.now() * 1000000000 if is_sym(w.now()) else int(w.now() * 1e9),
                        sleep=self._sleep, strftime=real_time.strftime, gmtime=lambda s=None: real_time.gmtime(w.now() if s is None else s), localtime=lambda s=None: real_time.gmtime(w.now() if s is None else s), mktime=real_time.mktime)
    def _sleep(self, s):
        h = getattr(self.world, 'on_sleep', None)
        if h: h(s)
        self.world.advance(s)
    def _m_datetime(self):
        w = self.world
        def now_():
            n = w.now()
            return 1600000000.0 if is_sym(n) else n
        class datetime(real_dt.datetime):
            @classmethod
            def utcnow(cls): return real_dt.datetime.fromtimestamp(now_(), real_dt.timezone.utc).replace(tzinfo=None)
            @classmethod
            def now(cls, tz=None): return real_dt.datetime.fromtimestamp(now_(), tz or real_dt.timezone.utc) if tz else cls.utcnow()
        return self._ns('datetime', datetime=datetime, timedelta=real_dt.timedelta, timezone=real_dt.timezone, date=real_dt.date, UTC=real_dt.timezone.utc)
    def _m_sqlite3(self):
        w, me = self.world, self
        def connect(database, timeout=5.0, *a, **k):
            if not w.quiet: me.check()
            env = me.env
            k.pop('uri', None); k.pop('check_same_thread', None)
            if database == ':memory:': real = ':memory:'
            else:
                n = w.fs.get(database)
                if isinstance(n, simfs.Dir): raise sqlite3.OperationalError('unable to open database file')
                if n is None:
                    try: d, nm, _ = w.fs.parent(database)
                    except OSError: raise sqlite3.OperationalError('unable to open database file')
                    w.tick(me, 'create', database)
                    n = d.ch[nm] = simfs.File(b'', w.touch())
                if n.db is None:
                    n.db = '/dev/shm/symx-%d-%d.db' % (real_os.getpid(), len(w.dbs))
                    for s in ('', '-journal', '-wal', '-shm'):
                        try: real_os.unlink(n.db + s)
                        except OSError: pass
                    w.dbs.append(n.db)
                real = n.db
            con = sqlite3.connect(real, timeout=0, check_same_thread=False, *a, **k)
            con.execute('pragma synchronous=off')
            return fakes.SimConnection(w, me, con, w.codec, database)
        m = self._ns('sqlite3', connect=connect)
        for n in ('Row', 'Error', 'OperationalError', 'IntegrityError', 'DatabaseError', 'ProgrammingError', 'InterfaceError', 'Binary', 'PARSE_DECLTYPES', 'PARSE_COLNAMES', 'sqlite_version', 'Warning', 'version'):
            if hasattr(sqlite3, n): setattr(m, n, getattr(sqlite3, n))
        m.Connection = fakes.SimConnection; m.Cursor = fakes.SimCursor
        return m
    def _m_pysodium(self): return Sodium(self.world)
    def _m_base64(self):
        def wrap(f):
            def g(x, *a, **k):
                if is_sym(x):
                    enc = f.__name__ in ('b64encode', 'standard_b64encode')
                    if enc and isinstance(x, SymSeq) and not a and not k:     # opaque text that only decodes back
                        if x.kind == 's': raise TypeError("a bytes-like object is required, not 'str'")
                        return Rope.atom(Atom(-1, (len(x.chars) + 2) // 3 * 4, 'b64', x, 'b64'))
                    w = x.whole() if isinstance(x, Rope) else None
                    if not enc and w is not None and w.kind == 'b64': return w.data
                    unsupported('base64 of symbolic data')
                return f(x, *a, **k)
            return g
        return self._ns('base64', **{n: wrap(getattr(real_b64, n)) for n in 'b64encode b64decode urlsafe_b64encode urlsafe_b64decode standard_b64encode standard_b64decode b32encode b32decode b16encode b16decode'.split()})
    def _m_re(self): return symre
    def _m_copy(self): return real_copy
    def _m_io(self): return self._ns('io', BytesIO=SymBytesIO, StringIO=real_io.StringIO, open=simfs.fp(self.env.open), IOBase=real_io.IOBase, RawIOBase=real_io.RawIOBase, BufferedReader=real_io.BufferedReader, DEFAULT_BUFFER_SIZE=8192, UnsupportedOperation=real_io.UnsupportedOperation, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, TextIOWrapper=real_io.TextIOWrapper)
    def _m_struct(self):
        def pack(f, *a):
            if any(is_sym(x) for x in a):
                if f in ('!I', '>I') and len(a) == 1 and isinstance(a[0], SymNum): a = (int(a[0]),)
                else: unsupported('struct.pack of symbolic values')
            return real_struct.pack(f, *a)
        def unpack(f, x):
            if isinstance(x, Rope): raise real_struct.error('garbage')
            if isinstance(x, SymSeq): unsupported('struct.unpack of symbolic bytes')
            return real_struct.unpack(f, x)
        return self._ns('struct', pack=pack, unpack=unpack, error=real_struct.error, calcsize=real_struct.calcsize)
    def _m_binascii(self): return importlib.import_module('binascii')
    def _m_collections(self):
        import collections
        m = self._ns('collections', defaultdict=SymDefaultDict, OrderedDict=SymDict, deque=collections.deque, namedtuple=collections.namedtuple,
                     abc=importlib.import_module('collections.abc'), Counter=collections.Counter, ChainMap=collections.ChainMap, UserDict=collections.UserDict)
        return m
    def _m_collections_abc(self): return importlib.import_module('collections.abc')
    def _m_fcntl(self):
        import fcntl
        return self._ns('fcntl', flock=self.env.flock, lockf=self.env.flock, LOCK_EX=fcntl.LOCK_EX, LOCK_NB=fcntl.LOCK_NB, LOCK_UN=fcntl.LOCK_UN, LOCK_SH=fcntl.LOCK_SH)
    def _m_threading(self):
        me = self
        class local:
            def __init__(s): object.__setattr__(s, '_d', {})
            def _cur(s): return s._d.setdefault(me.thread, {})
            def __getattr__(s, n):
                d = object.__getattribute__(s, '_d').setdefault(me.thread, {})
                if n in d: return d[n]
                raise AttributeError(n)
            def __setattr__(s, n, v): s._cur()[n] = v
            def __delattr__(s, n): 
                if n not in s._cur(): raise AttributeError(n)
                del s._cur()[n]
            @property
            def __dict__(s): return s._cur()
        class Lock:
            def __init__(s): s.n = None; s.c = 0
            def acquire(s, blocking=True, timeout=-1):
                if s.n is not None and s.n != me.thread:
                    if not blocking: return False
                    core.cur.die(core.Hang('lock would block forever'))
                s.n = me.thread; s.c += 1; return True
            def release(s):
                s.c -= 1
                if s.c <= 0: s.n = None; s.c = 0
            def locked(s): return s.n is not None
            def __enter__(s): s.acquire(); return s
            def __exit__(s, *a): s.release()
        class Thread:
            def __init__(s, group=None, target=None, name=None, args=(), kwargs=None, daemon=None): s.t = target; s.a = args; s.k = kwargs or {}; s.daemon = daemon
            def start(s): me._start(s.t, s.a, s.k)
            def join(s, timeout=None): pass
        return self._ns('threading', local=local, Lock=Lock, RLock=Lock, Thread=Thread, get_ident=lambda: hash(me.thread), current_thread=lambda: types.SimpleNamespace(name=me.thread, ident=1), Event=_Event, Semaphore=Lock, Condition=Lock)
    def _start(self, f, a, k=None):
        if self.world.thread_runner is None: unsupported('thread started')
        self.world.thread_runner(self, f, a, k or {})
    def _m__thread(self): return self._ns('_thread', start_new_thread=self._start, allocate_lock=self.module('threading').Lock, get_ident=lambda: 1)
    def _m_socket(self):
        import socket
        w, me = self.world, self
        def mk(*a, **k):
            if w.sock_factory is None: unsupported('socket')
            return w.sock_factory(me)
        def create_connection(addr, *a, **k):
            s = mk(); s.connect(addr); return s
        m = self._ns('socket', socket=mk, create_connection=create_connection, timeout=socket.timeout, error=OSError, gaierror=socket.gaierror)
        for n in 'AF_INET SOCK_STREAM AF_INET6 SOL_SOCKET SO_REUSEADDR SHUT_RDWR SHUT_WR SHUT_RD MSG_WAITALL MSG_DONTWAIT IPPROTO_TCP TCP_NODELAY SO_KEEPALIVE MSG_PEEK'.split(): setattr(m, n, getattr(socket, n))
        return m
    def _m_boto3(self):
        w, me = self.world, self
        def client(*a, **k): return fakes.S3Client(w, me, w.s3, rt.len_p, lambda ps: _cat(ps))
        return self._ns('boto3', client=client)
    def _m_termcolor(self): return self._ns('termcolor', colored=lambda t, *a, **k: t)
    def _m_getpass(self):
        def gp(*a, **k):
            if not self.world.passwords: raise EOFError
            v = self.world.passwords.pop(0)
            return v() if callable(v) else v
        return self._ns('getpass', getpass=gp, getuser=lambda: 'user')
    def _m_pprint(self): return self._ns('pprint', pprint=lambda *a, **k: None, pformat=lambda *a, **k: '')
    def _m_random(self): return self._ns('random', random=lambda: 0.5, randint=lambda a, b: a, choice=lambda s: s[0], getrandbits=lambda n: self.world.fresh_bytes(8)[0])
    def _m_uuid(self):
        def u4():
            h = self.world.fresh_bytes(16).hex()
            return types.SimpleNamespace(hex=h, __str__=lambda s: h)
        return self._ns('uuid', uuid4=lambda: _U(self.world.fresh_bytes(16).hex()), uuid1=lambda: _U(self.world.fresh_bytes(16).hex()))
    def _m_secrets(self): return self._ns('secrets', token_bytes=self.world.fresh_bytes, token_hex=lambda n=16: self.world.fresh_bytes(n).hex(), compare_digest=lambda a, b: a == b,
                                          token_urlsafe=lambda n=16: self.world.fresh_bytes(n).hex())
    def _m_logging(self):
        class L:
            def __getattr__(s, n): return lambda *a, **k: None
        m = self._ns('logging', getLogger=lambda *a: L(), basicConfig=lambda **k: None, DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
        for n in 'debug info warning error exception critical log'.split(): setattr(m, n, lambda *a, **k: None)
        return m
    def _m_tempfile(self):
        me = self
        def mkstemp(suffix='', prefix='tmp', dir=None, text=False):
            p = (dir or '/tmp') + '/' + prefix + me.world.fresh_bytes(4).hex() + (suffix or '')
            f = me.env.open(p, 'xb+'); me.env.raw.add(f); return f.fileno(), p
        def mkdtemp(suffix='', prefix='tmp', dir=None):
            p = (dir or '/tmp') + '/' + prefix + me.world.fresh_bytes(4).hex() + (suffix or ''); me.env.mkdir(p); return p
        class NTF:
            def __init__(s, mode='w+b', delete=True, dir=None, suffix='', prefix='tmp', **k):
                fd, s.name = mkstemp(suffix, prefix, dir); s.f = me.env.fds[fd]; s.f.text = 'b' not in mode; s.delete = delete
            def __getattr__(s, n): return getattr(s.f, n)
            def close(s):
                s.f.close()
                if s.delete and me.env.exists(s.name): me.env.remove(s.name)
            def __enter__(s): return s
            def __exit__(s, *a): s.close()
        return self._ns('tempfile', mkstemp=mkstemp, mkdtemp=mkdtemp, NamedTemporaryFile=NTF, gettempdir=lambda: '/tmp')

    # ---- life cycle
    def end(self):
        """The process is gone: locks and files released, open transactions lost."""
        self.dead = True
        w = self.world
        w.quiet += 1
        try:
            for f in list(self.files): f.close()
            for c in list(self.cons):
                try: c.close()
                except sqlite3.Error: pass
        finally: w.quiet -= 1

class _TypedDict(dict):
    def __init_subclass__(cls, total=True): pass
class _U:
    def __init__(self, h): self.hex = h
    def __str__(self): return self.hex
class _Null:
    def write(self, *a): return 0
    def flush(self): pass
    def isatty(self): return False
    def read(self, *a): return ''
    buffer = property(lambda s: s)
class _Event:
    def __init__(s): s.v = False
    def set(s): s.v = True
    def clear(s): s.v = False
    def is_set(s): return s.v
    def wait(s, t=None): return s.v

def _cat(ps):
    out = b''
    for p in ps: out = out + p
    return out

def _enter(name):
    f = core.cur.functions
    f[name] = f.get(name, 0) + 1
