"""In-memory POSIX-like file system with symbolic names and contents, and the os / shutil / open stand-ins over it."""
import builtins as B, errno as E, io, os as real_os, stat as _stat, types, weakref
from . import core, values as V
from .values import SymSeq, SymNum, Rope, SymDict, is_sym, unsupported
from .rt import callm, len_p, bytes_p
from .world import SimCrash

class Dir:
    __slots__ = ('ch', 'mtime', 'ino', 'ctime')
    def __init__(self, t=0.0): self.ch = SymDict(); self.mtime = self.ctime = t
class File:
    __slots__ = ('data', 'mtime', 'ctime', 'atime', 'mode', 'db', 'locked')
    def __init__(self, data=b'', t=0.0): self.data = data; self.mtime = self.ctime = self.atime = t; self.mode = 0o644; self.db = None; self.locked = None

def oserr(code, path, path2=None):
    e = OSError(code, real_os.strerror(code))
    e.filename = path
    return e

class FS:
    def __init__(self, world):
        self.w = world; self.root = Dir(); self.cwd = '/'

    def parts(self, path):
        if hasattr(path, '__fspath__') and not isinstance(path, (str, bytes, SymSeq)): path = path.__fspath__()
        if isinstance(path, bytes) or (isinstance(path, SymSeq) and path.kind == 'b'): path = path.decode('utf8')
        if not isinstance(path, (str, SymSeq)): raise TypeError('expected str, bytes or os.PathLike object, not ' + type(path).__name__)
        if len(path) == 0: raise oserr(E.ENOENT, path)
        if callm('\0', '__contains__', path) if False else (isinstance(path, SymSeq) and '\0' in path or isinstance(path, str) and '\0' in path):
            raise ValueError('embedded null byte')
        pre = [] if path.startswith('/') else [p for p in self.cwd.split('/') if p]
        out = pre
        for c in path.split('/'):
            if c == '' or c == '.': continue
            out = out + [c]
        trailing = path.endswith('/')
        return out, trailing

    def walk(self, parts, path):
        """node for the component list; '..' handled; raises ENOENT/ENOTDIR"""
        stack = [self.root]; node = self.root
        for c in parts:
            if not isinstance(node, Dir): raise oserr(E.ENOTDIR, path)
            if c == '..':
                if len(stack) > 1: stack.pop()
                node = stack[-1]; continue
            if self.toolong(c): raise oserr(E.ENAMETOOLONG, path)
            nxt = node.ch.get(c, None)
            if nxt is None: raise oserr(E.ENOENT, path)
            node = nxt; stack.append(node)
        return node
    def toolong(self, c): return len(c) > 255
    def lookup(self, path):
        parts, trailing = self.parts(path)
        n = self.walk(parts, path)
        if trailing and not isinstance(n, Dir): raise oserr(E.ENOTDIR, path)
        return n
    def parent(self, path):
        """(dir node, last name, trailing slash) for creation/removal"""
        parts, trailing = self.parts(path)
        if not parts: raise oserr(E.EBUSY, path)
        if parts[-1] == '..':
            raise oserr(E.ENOTEMPTY, path)
        d = self.walk(parts[:-1], path)
        if not isinstance(d, Dir): raise oserr(E.ENOTDIR, path)
        if self.toolong(parts[-1]): raise oserr(E.ENAMETOOLONG, path)
        return d, parts[-1], trailing
    def get(self, path):
        try: return self.lookup(path)
        except OSError: return None
        except ValueError: return None
    # ---- snapshots for harnesses
    def tree(self, path='/'):
        """{relative path: File} of all regular files below path"""
        out = SymDict()
        def rec(d, pre):
            for n, x in list(d.ch.items()):
                if isinstance(x, Dir): rec(x, pre + n + '/')
                else: out[pre + n] = x
        n = self.get(path)
        if isinstance(n, Dir): rec(n, '/')
        return out

class ModelFile:
    """File object; writes reach the file system immediately."""
    def __init__(self, env, path, mode, node, encoding=None):
        self.env = env; self.name = path; self.mode = mode; self.node = node; self.pos = 0; self.closed = False
        self.text = 'b' not in mode; self.encoding = encoding or 'utf-8'
        self.w = any(c in mode for c in 'wax+'); self.r = 'r' in mode or '+' in mode
        if 'a' in mode: self.pos = len_p(node.data)
        self.lock = False; self.dirty = False
        env.proc.files.add(self)        # weakly: a file that is no longer referenced is closed, and its lock is free, as in CPython
        env.nfd += 1
        self._fd = 100 + env.nfd
        env.fds[self._fd] = self
    def _chk(self):
        if not self.env.w.quiet: self.env.proc.check()
        if self.closed: raise ValueError('I/O operation on closed file')
    def fileno(self): self._chk(); return self._fd
    def readable(self): return self.r
    def writable(self): return self.w
    def seekable(self): return True
    def isatty(self): return False
    def read(self, n=-1):
        self._chk()
        if not self.r: raise io.UnsupportedOperation('not readable')
        d = self.node.data
        if self.node.db is not None: unsupported('reading a database file as bytes')
        if n is None or (not isinstance(n, SymNum) and n < 0):
            out = d[self.pos:] if not (isinstance(self.pos, int) and self.pos == 0) else d
        else: out = d[self.pos:self.pos + n]
        self.pos = self.pos + len_p(out)
        if self.text: return out.decode(self.encoding)
        return out
    def read1(self, n=-1): return self.read(n)
    def readinto(self, b): unsupported('readinto')
    def readline(self):
        self._chk()
        d = self.node.data[self.pos:]
        i = d.find(b'\n')
        out = d if i < 0 else d[:i + 1]
        self.pos = self.pos + len_p(out)
        return out.decode(self.encoding) if self.text else out
    def readlines(self):
        return list(self)
    def __iter__(self):
        while True:
            l = self.readline()
            if len_p(l) == 0: return
            yield l
    def write(self, data):
        self._chk()
        if not self.w: raise io.UnsupportedOperation('not writable')
        if self.text:
            if V.seq_of(data, 's') is None and not isinstance(data, (V.JsonText, V.NumStr, V.StrRope)): raise TypeError('write() argument must be str, not ' + type(data).__name__)
            enc = callm(data, 'encode', self.encoding) if not isinstance(data, V.NumStr) else unsupported('NumStr in file')
        else:
            if isinstance(data, str) or V.is_symstr(data) or isinstance(data, (V.JsonText, V.NumStr, V.StrRope)):
                raise TypeError("a bytes-like object is required, not 'str'")
            if hasattr(data, '_symx_bytes'): data = data._symx_bytes()
            enc = data
        n = len_p(enc)
        if isinstance(n, int) and n == 0: return 0
        w = self.env.w
        w.tick(self.env.proc, 'write', self.name)
        if w.partial(self.env.proc):
            self._put(half(enc))
            w.die(self.env.proc)
        self._put(enc)
        return len_p(data)
    def _put(self, enc):
        d = self.node.data
        if 'a' in self.mode: self.pos = len_p(d)
        n = len_p(d)
        if V._same(V.raw(self.pos), V.raw(n)): self.node.data = d + enc
        else:
            end = self.pos + len_p(enc)
            rest = d[end:] if not end >= n else b''
            head = d[:self.pos]
            self.node.data = head + enc + rest
        self.pos = self.pos + len_p(enc)
        self.node.mtime = self.env.w.touch() if not self.env.w.quiet else self.node.mtime
        self.dirty = True
    def writelines(self, ls):
        for l in ls: self.write(l)
    def truncate(self, n=None):
        self._chk()
        n = self.pos if n is None else n
        self.env.w.tick(self.env.proc, 'truncate', self.name)
        self.node.data = self.node.data[:n]
        self.node.mtime = self.env.w.touch()
        return n
    def seek(self, off, whence=0):
        self._chk()
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len_p(self.node.data) + off
        return self.pos
    def tell(self): return self.pos
    def flush(self): self._chk()
    def close(self):
        if self.closed: return
        self.closed = True
        if self.node.locked is not None and self.node.locked() in (self, None): self.node.locked = None
        self.env.proc.files.discard(self)
        self.env.raw.discard(self)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __del__(self):
        try: self.close()
        except BaseException: pass

def half(x):
    n = len_p(x)
    if isinstance(n, int): return x[:max(1, n // 2)] if n > 1 else x[:0]
    r = Rope.of(x)
    # a strict, possibly empty prefix of symbolic length: half of it
    return r[:n // 2]

class DirEntry:
    def __init__(self, env, base, name): self.env = env; self.name = name; self.path = base + ('' if base.endswith('/') else '/') + name
    def is_dir(self, follow_symlinks=True): return self.env.isdir(self.path)
    def is_file(self, follow_symlinks=True): return self.env.isfile(self.path)
    def is_symlink(self): return False
    def stat(self, follow_symlinks=True): return self.env.stat(self.path)
    def __fspath__(self): return self.path

class Stat:
    def __init__(self, node):
        if isinstance(node, Dir): self.st_mode = _stat.S_IFDIR | 0o755; self.st_size = 4096; self.st_mtime = self.st_ctime = self.st_atime = node.mtime
        else:
            self.st_mode = _stat.S_IFREG | node.mode; self.st_size = len_p(node.data)
            self.st_mtime = node.mtime; self.st_ctime = node.ctime; self.st_atime = node.atime
        self.st_ino = id(node); self.st_dev = 1; self.st_nlink = 1; self.st_uid = self.st_gid = 65534
    st_mtime_ns = property(lambda s: _ns(s.st_mtime)); st_ctime_ns = property(lambda s: _ns(s.st_ctime)); st_atime_ns = property(lambda s: _ns(s.st_atime))
    def __getitem__(self, i): return (self.st_mode, self.st_ino, self.st_dev, 1, 0, 0, self.st_size, int(self.st_atime), int(self.st_mtime), int(self.st_ctime))[i]
def _ns(x): return x * 1000000000 if is_sym(x) else int(x * 1000000000)

class Stale(Exception): pass
def retry(f):
    """A primitive looks at the file system again after others have run at its tick."""
    def g(self, *a, **k):
        try: return f(self, *a, **k)
        except Stale: pass
        self.notick = True
        try: return f(self, *a, **k)
        finally: self.notick = False
    return g

def _isp(x): return hasattr(x, '__fspath__') and not isinstance(x, SymSeq)
def fp(f):
    """Path objects become text before a primitive sees them."""
    def g(*a, **k):
        if any(_isp(x) for x in a[:2]): a = tuple(x.__fspath__() if _isp(x) else x for x in a)
        return f(*a, **k)
    g.__name__ = f.__name__
    return g

class OsEnv:
    """os, os.path, shutil and open for one process."""
    def __init__(self, world, proc, fs):
        self.w = world; self.proc = proc; self.fs = fs; self.fds = weakref.WeakValueDictionary(); self.raw = set(); self.nfd = 0
    def q(self):
        if not self.w.quiet: self.proc.check()
    notick = False
    def tick(self, kind, detail=''):
        if self.notick: return
        self.w.tick(self.proc, kind, detail)
        if self.w.observers and not self.w.quiet: raise Stale
    # ------------------------------------------------------------ queries
    def stat(self, path, **k):
        self.q()
        if isinstance(path, int): return Stat(self.fds[path].node)
        return Stat(self.fs.lookup(path))
    lstat = stat
    def fstat(self, fd): return Stat(self.fds[fd].node)
    def exists(self, path): self.q(); return self.fs.get(path) is not None
    lexists = exists
    def isfile(self, path): self.q(); return isinstance(self.fs.get(path), File)
    def isdir(self, path): self.q(); return isinstance(self.fs.get(path), Dir)
    def islink(self, path): return False
    def ismount(self, path): return path == '/'
    def getmtime(self, path): self.q(); return self.stat(path).st_mtime
    def getctime(self, path): self.q(); return self.stat(path).st_ctime
    def getatime(self, path): self.q(); return self.stat(path).st_atime
    def getsize(self, path): self.q(); return self.stat(path).st_size
    def samefile(self, a, b): return self.fs.lookup(a) is self.fs.lookup(b)
    def access(self, path, mode, **k): self.q(); return self.fs.get(path) is not None
    def _names(self, d):
        ks = list(d.ch.keys())
        return sorted(ks) if not any(is_sym(k) for k in ks) else ks
    def listdir(self, path='.'):
        self.q()
        d = self.fs.lookup(path)
        if not isinstance(d, Dir): raise oserr(E.ENOTDIR, path)
        return self._names(d)
    def scandir(self, path='.'):
        names = self.listdir(path)
        class It(list):
            def __enter__(s): return s
            def __exit__(s, *a): pass
            def close(s): pass
            def __next__(s): return s.pop(0)
        return It(DirEntry(self, path, n) for n in names)
    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        try: names = self.listdir(top)
        except OSError as e:
            if onerror: onerror(e)
            return
        dirs = [n for n in names if self.isdir(self._j(top, n))]; files = [n for n in names if not self.isdir(self._j(top, n))]
        if topdown: yield top, dirs, files
        for d in dirs: yield from self.walk(self._j(top, d), topdown, onerror)
        if not topdown: yield top, dirs, files
    def _j(self, a, b): return a + b if a.endswith('/') else a + '/' + b
    def getcwd(self): self.q(); return self.fs.cwd
    def chdir(self, path):
        self.q()
        n = self.fs.lookup(path)
        if not isinstance(n, Dir): raise oserr(E.ENOTDIR, path)
        ps, _ = self.fs.parts(path)
        out = []
        for p in ps:
            if p == '..': out and out.pop()
            else: out.append(p)
        s = ''
        for p in out: s = s + '/' + p
        self.fs.cwd = s if len(out) else '/'
    # ------------------------------------------------------------ mutations
    @retry
    def mkdir(self, path, mode=0o777, **k):
        self.q()
        d, n, _ = self.fs.parent(path)
        if n in d.ch: raise oserr(E.EEXIST, path)
        self.tick('mkdir', path)
        d, n, _ = self.fs.parent(path)
        d.ch[n] = Dir(self.w.now())
    def makedirs(self, path, mode=0o777, exist_ok=False):
        self.q()
        if len(path) == 0: raise oserr(E.ENOENT, path)
        head, tail = self._split(path)
        if len(tail) == 0: head, tail = self._split(head)
        if len(head) and len(tail) and not self.exists(head):
            try: self.makedirs(head, exist_ok=exist_ok)
            except FileExistsError: pass
            if tail == '.': return
        try: self.mkdir(path)
        except OSError:
            if not exist_ok or not self.isdir(path): raise
    def _split(self, p):
        i = p.rfind('/') + 1
        head, tail = p[:i], p[i:]
        if len(head) and not head == '/' * len(head): head = head.rstrip('/')
        return head, tail
    @retry
    def rmdir(self, path, **k):
        self.q()
        d, n, _ = self.fs.parent(path)
        x = d.ch.get(n)
        if x is None: raise oserr(E.ENOENT, path)
        if not isinstance(x, Dir): raise oserr(E.ENOTDIR, path)
        if len(x.ch): raise oserr(E.ENOTEMPTY, path)
        self.tick('rmdir', path)
        del d.ch[n]
    def removedirs(self, path):
        self.rmdir(path)
        head, tail = self._split(path)
        if len(tail) == 0: head, tail = self._split(head)
        while len(head) and len(tail):
            try: self.rmdir(head)
            except OSError: break
            head, tail = self._split(head)
    @retry
    def remove(self, path, **k):
        self.q()
        d, n, tr = self.fs.parent(path)
        x = d.ch.get(n)
        if x is None: raise oserr(E.ENOENT, path)
        if isinstance(x, Dir): raise oserr(E.EISDIR, path)
        if tr: raise oserr(E.ENOTDIR, path)
        self.tick('remove', path)
        d, n, tr = self.fs.parent(path)
        if n not in d.ch: raise oserr(E.ENOENT, path)
        del d.ch[n]
    unlink = remove
    @retry
    def rename(self, src, dst, **k):
        self.q()
        sd, sn, st = self.fs.parent(src)
        x = sd.ch.get(sn)
        if x is None: raise oserr(E.ENOENT, src)
        if st and not isinstance(x, Dir): raise oserr(E.ENOTDIR, src)
        dd, dn, dt = self.fs.parent(dst)
        y = dd.ch.get(dn)
        if dt and not isinstance(x, Dir): raise oserr(E.ENOTDIR, dst)
        if y is x: return
        if y is not None:
            if isinstance(y, Dir) and not isinstance(x, Dir): raise oserr(E.EISDIR, dst)
            if isinstance(x, Dir) and not isinstance(y, Dir): raise oserr(E.ENOTDIR, dst)
            if isinstance(y, Dir) and len(y.ch): raise oserr(E.ENOTEMPTY, dst)
        if isinstance(x, Dir):
            def inside(n):
                return n is dd or any(inside(c) for c in n.ch.values() if isinstance(c, Dir))
            if inside(x): raise oserr(E.EINVAL, dst)
        self.tick('rename', (src, dst))
        sd, sn, st = self.fs.parent(src)
        if sn not in sd.ch: raise oserr(E.ENOENT, src)
        del sd.ch[sn]
        dd.ch[dn] = x
        x.ctime = self.w.touch()
    def replace(self, src, dst, **k): return self.rename(src, dst)
    def renames(self, old, new):
        h, t = self._split(new)
        if len(h) and len(t) and not self.exists(h): self.makedirs(h)
        self.rename(old, new)
        h, t = self._split(old)
        if len(h) and len(t):
            try: self.removedirs(h)
            except OSError: pass
    @retry
    def link(self, src, dst, **k):
        self.q()
        x = self.fs.lookup(src); d, n, _ = self.fs.parent(dst)
        if n in d.ch: raise oserr(E.EEXIST, dst)
        self.tick('link', dst); d.ch[n] = x
    def symlink(self, *a, **k): unsupported('symlink')
    @retry
    def utime(self, path, times=None, ns=None, **k):
        self.q()
        n = self.fds[path].node if isinstance(path, int) else self.fs.lookup(path)
        self.tick('utime', path)
        n.mtime = self.w.touch() if times is None and ns is None else float(times[1]) if times is not None and not is_sym(times[1]) else times[1] if times is not None else ns[1] / 1000000000
    def chmod(self, path, mode, **k): self.q(); self.fs.lookup(path)
    chown = lambda self, *a, **k: None
    def fsync(self, fd): self.q()
    fdatasync = fsync
    def sync(self): pass
    @retry
    def truncate(self, path, n):
        x = self.fs.lookup(path); self.tick('truncate', path); x.data = x.data[:n]; x.mtime = self.w.touch()
    def ftruncate(self, fd, n): self.fds[fd].truncate(n)
    def close(self, fd): self.fds[fd].close()
    def os_open(self, path, flags, mode=0o777, **k):
        m = 'rb'
        if flags & (real_os.O_WRONLY | real_os.O_RDWR):
            if flags & real_os.O_EXCL: m = 'xb+'
            elif flags & real_os.O_TRUNC: m = 'wb+'
            else: m = 'rb+'
            if flags & real_os.O_CREAT and m == 'rb+' and not self.exists(path): m = 'xb+'
        f = self.open(path, m)
        self.raw.add(f)
        return f.fileno()
    def os_write(self, fd, data): self.fds[fd].write(data); return len_p(data)
    def os_read(self, fd, n): return self.fds[fd].read(n)
    def fdopen(self, fd, *a, **k): return self.fds[fd]
    # ------------------------------------------------------------ open
    @retry
    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        self.q()
        if isinstance(path, int): return self.fds[path]
        if 'w' in mode or 'x' in mode or 'a' in mode:
            d, n, tr = self.fs.parent(path)
            x = d.ch.get(n)
            if isinstance(x, Dir) or tr: raise oserr(E.EISDIR, path)
            if 'x' in mode and x is not None: raise oserr(E.EEXIST, path)
            if x is None:
                self.tick('create', path)
                d, n, tr = self.fs.parent(path)
                x = d.ch[n] = File(b'', self.w.touch())
            elif 'w' in mode:
                if x.db is not None: unsupported('overwriting a database file')
                if not (isinstance(x.data, bytes) and x.data == b''):
                    self.tick('truncate', path)
                    x.data = b''
                x.mtime = self.w.touch() if not self.w.quiet else x.mtime
        else:
            hook = getattr(self.w, 'read_hook', None)
            if hook and not self.w.quiet: hook(self.proc, path)
            x = self.fs.lookup(path)
            if isinstance(x, Dir): raise oserr(E.EISDIR, path)
        return ModelFile(self, path, mode, x, encoding)
    # ------------------------------------------------------------ shutil
    def copyfileobj(self, src, dst, length=0):
        while True:
            b = src.read(1024 * 64)
            if len_p(b) == 0: break
            dst.write(b)
    def copyfile(self, src, dst, **k):
        self.q()
        x = self.fs.lookup(src)
        if isinstance(x, Dir): raise oserr(E.EISDIR, src)
        if x.db is not None: unsupported('copying a database file')
        if self.fs.get(dst) is x: 
            import shutil as _sh
            raise _sh.SameFileError('%r and %r are the same file' % (src, dst))
        data = x.data
        with self.open(dst, 'wb') as f:
            if len_p(data) > 0: f.write(data)
        return dst
    def _cpdst(self, src, dst):
        if self.isdir(dst): return self._j(dst, self._split(src)[1])
        return dst
    def copy(self, src, dst, **k):
        dst = self._cpdst(src, dst); self.copyfile(src, dst); return dst
    def copy2(self, src, dst, **k):
        dst = self._cpdst(src, dst); self.copyfile(src, dst); self.copystat(src, dst); return dst
    @retry
    def copystat(self, src, dst, **k):
        a, b = self.fs.lookup(src), self.fs.lookup(dst)
        self.tick('utime', dst); b.mtime = a.mtime
    def copymode(self, *a, **k): pass
    def move(self, src, dst, copy_function=None):
        self.q()
        import shutil as _sh
        rdst = dst
        if self.isdir(dst):
            x, y = self.fs.get(src), self.fs.get(dst)
            if x is y: self.rename(src, dst); return
            rdst = self._j(dst, self._split(src.rstrip('/'))[1])
            if self.exists(rdst): raise _sh.Error("Destination path '%s' already exists" % (rdst,))
        try: self.rename(src, rdst)
        except OSError as e:
            x = self.fs.get(src)
            if isinstance(x, Dir):
                if e.errno == E.EINVAL: raise _sh.Error("Cannot move a directory '%s' into itself '%s'." % (src, dst))
                self.copytree(src, rdst); self.rmtree(src)
            else:
                self.copy2(src, rdst); self.remove(src)
        return rdst
    def copytree(self, src, dst, *a, **k):
        self.makedirs(dst, exist_ok=k.get('dirs_exist_ok', False))
        for n in self.listdir(src):
            s, d = self._j(src, n), self._j(dst, n)
            if self.isdir(s): self.copytree(s, d, **k)
            else: self.copy2(s, d)
        return dst
    def rmtree(self, path, ignore_errors=False, onerror=None, **k):
        self.q()
        try:
            n = self.fs.lookup(path)
            if not isinstance(n, Dir): raise oserr(E.ENOTDIR, path)
            def rec(p, d):
                for name in self._names(d):
                    q = self._j(p, name)
                    if isinstance(d.ch[name], Dir): rec(q, d.ch[name])
                    else: self.remove(q)
                self.rmdir(p)
            rec(path, n)
        except OSError:
            if not ignore_errors: raise
    def disk_usage(self, p): return (10**12, 0, 10**12)
    # ------------------------------------------------------------ flock
    def flock(self, f, op):
        import fcntl
        self.q()
        f = self.fds[f] if isinstance(f, int) else f
        if f.closed: raise ValueError('I/O operation on closed file')
        if op & fcntl.LOCK_UN:
            if f.node.locked is not None and f.node.locked() is f: f.node.locked = None
            return
        h = f.node.locked() if f.node.locked is not None else None
        if h is not None and h is not f and not h.closed:
            if op & fcntl.LOCK_NB: raise BlockingIOError(E.EAGAIN, 'Resource temporarily unavailable')
            core.cur.die(core.Hang('flock would block forever'))
        f.node.locked = weakref.ref(f)
    # ------------------------------------------------------------ modules
    def modules(self, loader):
        import posixpath
        os_ = types.ModuleType('os'); loader.stubs['os'] = os_
        for n in 'sep altsep curdir pardir extsep pathsep linesep fspath stat lstat'.split(): setattr(os_, n, getattr(real_os, n))
        os_.fspath = lambda p: p if isinstance(p, (str, bytes, SymSeq)) else p.__fspath__()
        pp = loader.stdlib('posixpath')        # rewritten stdlib source over this os
        path = types.ModuleType('os.path')
        for n in dir(posixpath):
            if not n.startswith('__'): setattr(path, n, getattr(pp, n, getattr(posixpath, n)))
        for n in 'exists lexists isfile isdir islink ismount getmtime getctime getatime getsize samefile'.split(): setattr(path, n, fp(getattr(self, n)))
        path.realpath = lambda p, **k: path.abspath(p)
        for n in ('sep altsep curdir pardir extsep pathsep linesep name devnull O_RDONLY O_WRONLY O_RDWR O_CREAT O_EXCL O_TRUNC O_APPEND O_CLOEXEC '
                  'F_OK R_OK W_OK X_OK SEEK_SET SEEK_CUR SEEK_END PathLike error fspath getpid getuid geteuid urandom environ getenv strerror cpu_count').split():
            setattr(os_, n, getattr(real_os, n))
        os_.fspath = lambda p: p if isinstance(p, (str, bytes, SymSeq)) else p.__fspath__()
        os_.fsdecode = os_.fsencode = lambda p: p
        os_.error = OSError
        for n in '''stat lstat fstat access listdir scandir walk getcwd chdir mkdir makedirs rmdir removedirs remove unlink rename replace renames
                    link symlink utime chmod chown fsync fdatasync sync truncate ftruncate close fdopen'''.split(): setattr(os_, n, fp(getattr(self, n)))
        os_.open = fp(self.os_open); os_.write = self.os_write; os_.read = self.os_read
        os_.path = path; os_.umask = lambda m: 0o022
        sh = types.ModuleType('shutil')
        import shutil as real_sh
        sh.Error = real_sh.Error; sh.SameFileError = real_sh.SameFileError
        for n in 'copyfileobj copyfile copy copy2 copystat copymode move copytree rmtree disk_usage'.split(): setattr(sh, n, fp(getattr(self, n)))
        return os_, path, sh
