"""A small pathlib over the modelled os (loaded through the same rewrite as the code under test)."""
import os
import fnmatch as _fnmatch

def _text(x):
    return os.fspath(x)

def _norm(segs):
    s = ''
    for x in segs:
        x = _text(x)
        if x.startswith('/'): s = x
        elif len(s) == 0: s = x
        elif s.endswith('/'): s = s + x
        else: s = s + '/' + x
    root = '/' if s.startswith('/') else ''
    if s.startswith('//') and not s.startswith('///'): root = '//'
    return root, [p for p in s.split('/') if p and p != '.']

class PurePath:
    def __init__(self, *segs): self._root, self._parts = _norm(segs)
    def _new(self, root, parts):
        p = type(self).__new__(type(self))
        p._root = root; p._parts = parts
        return p
    def __str__(self):
        s = self._root
        for i, p in enumerate(self._parts): s = s + ('/' if i else '') + p
        return s if len(s) else '.'
    def __fspath__(self): return self.__str__()
    def as_posix(self): return self.__str__()
    def __repr__(self): return 'Path'
    def __truediv__(self, o): return type(self)(self, o)
    def __rtruediv__(self, o): return type(self)(o, self)
    def joinpath(self, *o): return type(self)(self, *o)
    def __eq__(self, o): return isinstance(o, PurePath) and self.__str__() == o.__str__()
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.parts < o.parts
    def __le__(self, o): return self.parts <= o.parts
    def __gt__(self, o): return self.parts > o.parts
    def __ge__(self, o): return self.parts >= o.parts
    def __hash__(self): return hash(self.__str__())
    @property
    def parts(self): return tuple(([self._root] if self._root else []) + self._parts)
    @property
    def root(self): return self._root
    @property
    def anchor(self): return self._root
    @property
    def drive(self): return ''
    @property
    def name(self): return self._parts[-1] if self._parts else ''
    @property
    def parent(self): return self._new(self._root, self._parts[:-1]) if self._parts else self
    @property
    def parents(self): return tuple([self._new(self._root, self._parts[:i]) for i in range(len(self._parts) - 1, -1, -1)])
    def _dot(self):
        n = self.name; i = n.rfind('.')
        return i if 0 < i and i < len(n) - 1 else -1
    @property
    def suffix(self):
        i = self._dot()
        return self.name[i:] if i >= 0 else ''
    @property
    def stem(self):
        i = self._dot()
        return self.name[:i] if i >= 0 else self.name
    @property
    def suffixes(self):
        n = self.name
        if n.endswith('.'): return []
        return ['.' + s for s in n.lstrip('.').split('.')[1:]]
    def is_absolute(self): return bool(self._root)
    def with_name(self, n):
        if not self._parts: raise ValueError('empty name')
        return self._new(self._root, self._parts[:-1] + [n])
    def with_suffix(self, s): return self.with_name(self.stem + s)
    def with_stem(self, s): return self.with_name(s + self.suffix)
    def is_relative_to(self, *o):
        o = type(self)(*o)
        return self._root == o._root and len(o._parts) <= len(self._parts) and self._parts[:len(o._parts)] == o._parts
    def relative_to(self, *o):
        o = type(self)(*o)
        if not self.is_relative_to(o): raise ValueError('not in the subpath')
        return self._new('', self._parts[len(o._parts):])
    def match(self, pat): return _fnmatch.fnmatchcase(self.name if '/' not in pat else self.__str__(), pat)

class Path(PurePath):
    @classmethod
    def cwd(cls): return cls(os.getcwd())
    def absolute(self): return self if self._root else type(self)(os.getcwd(), self)
    def resolve(self, strict=False):
        if strict: self.stat()
        return type(self)(os.path.abspath(self.__str__()))
    def stat(self, follow_symlinks=True): return os.stat(self.__str__())
    lstat = stat
    def exists(self, follow_symlinks=True): return os.path.exists(self.__str__())
    def is_file(self): return os.path.isfile(self.__str__())
    def is_dir(self): return os.path.isdir(self.__str__())
    def is_symlink(self): return False
    def samefile(self, o): return os.path.samefile(self.__str__(), os.fspath(o))
    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None): return open(self.__str__(), mode, encoding=encoding)
    def read_bytes(self):
        with open(self.__str__(), 'rb') as f: return f.read()
    def read_text(self, encoding=None, errors=None):
        with open(self.__str__(), 'r', encoding=encoding) as f: return f.read()
    def write_bytes(self, b):
        with open(self.__str__(), 'wb') as f: return f.write(b)
    def write_text(self, s, encoding=None, errors=None, newline=None):
        with open(self.__str__(), 'w', encoding=encoding) as f: return f.write(s)
    def touch(self, mode=0o666, exist_ok=True):
        if os.path.exists(self.__str__()):
            if not exist_ok: raise FileExistsError(17, 'File exists')
            os.utime(self.__str__())
            return
        with open(self.__str__(), 'ab'): pass
    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents: os.makedirs(self.__str__(), exist_ok=exist_ok)
        else:
            try: os.mkdir(self.__str__())
            except FileExistsError:
                if not exist_ok or not self.is_dir(): raise
    def rmdir(self): os.rmdir(self.__str__())
    def unlink(self, missing_ok=False):
        try: os.unlink(self.__str__())
        except FileNotFoundError:
            if not missing_ok: raise
    def rename(self, dst):
        os.rename(self.__str__(), os.fspath(dst)); return type(self)(dst)
    def replace(self, dst):
        os.replace(self.__str__(), os.fspath(dst)); return type(self)(dst)
    def chmod(self, mode): os.chmod(self.__str__(), mode)
    def iterdir(self):
        for n in os.listdir(self.__str__()): yield self._new(self._root, self._parts + [n])
    def walk(self, top_down=True, on_error=None, follow_symlinks=False):
        for d, ds, fs in os.walk(self.__str__(), top_down, on_error): yield type(self)(d), ds, fs
    def expanduser(self): return self
    def _sel(self, pats):
        if not pats:
            yield self
            return
        if pats[0] == '**':
            yield from self._sel(pats[1:])
            for c in self.iterdir():
                if c.is_dir(): yield from c._sel(pats)
            return
        for c in self.iterdir():
            if _fnmatch.fnmatchcase(c.name, pats[0]) and (len(pats) == 1 or c.is_dir()): yield from c._sel(pats[1:])
    def glob(self, pat):
        if self.is_dir(): yield from self._sel([p for p in pat.split('/') if p])
    def rglob(self, pat): return self.glob('**/' + pat)

PurePosixPath = PurePath
PosixPath = Path
