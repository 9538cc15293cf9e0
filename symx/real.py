"""Real-mode replay: the unmodified code of /repo on a real scratch directory, following one concrete assignment.

usage: python real.py JOB.json   (run as an unprivileged user; JOB = {check, scenario, params, inputs, root, repo, verif})
Prints one JSON line: {outcome, msg, key, obs}.
"""
import builtins, io, json, os, sys, types

def main():
    with open(sys.argv[1]) as f: job = json.load(f)
    root, repo, verif = job['root'], job['repo'], job['verif']
    sys.dont_write_bytecode = True
    sys.path[0:1] = [verif, repo]
    out_fd = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    try: res = run(job)
    except BaseException as e:
        import traceback
        res = {'outcome': 'error', 'msg': ''.join(traceback.format_exception(e))[-4000:]}
    os.write(out_fd, (json.dumps(res) + '\n').encode())
    os._exit(0)

def run(job):
    import shutil, sqlite3, time, datetime, fcntl, hashlib, threading, _thread, getpass, importlib, traceback
    import concurrent.futures as cf
    from symx import fakes, world as W
    from symx.hbase import Base, Outcome, Violation, forget, gen, canon
    from symx.world import SimCrash
    class Boto(types.ModuleType): pass
    boto = Boto('boto3'); sys.modules['boto3'] = boto
    ROOT = job['root']
    O = {n: getattr(os, n) for n in 'mkdir rmdir remove unlink rename replace utime truncate link listdir stat chdir getcwd makedirs scandir symlink'.split()}
    oopen, osleep, oconnect = builtins.open, time.sleep, sqlite3.connect
    otime = time.time
    world = W.World()
    world.s3 = fakes.S3State(); world.out = []; world.inputs = []; world.passwords = []; world.argv = ['bvn']
    world.sock_factory = None; world.thread_runner = None
    world.quiet = 1
    state = types.SimpleNamespace(cur=None)
    class Guard:
        """No nested ticks while a wrapper performs its own primitive."""
        def __init__(s): s.d = 0
        def __enter__(s): s.d += 1
        def __exit__(s, *a): s.d -= 1
    guard = Guard()
    def active(): return state.cur is not None and not world.quiet and guard.d == 0
    def inside(p):
        try: return isinstance(p, int) or os.path.abspath(os.fsdecode(p)).startswith(ROOT)
        except TypeError: return False
    def tick(kind, detail=''): world.tick(state.cur, kind, detail)
    def stamp(path, t=None):
        try: O['utime'](path, (world.now(), world.now() if t is None else t))
        except OSError: pass
    # ------------------------------------------------------------------ os
    def wrap(name, pre, post=None):
        f = O[name]
        def w(*a, **k):
            if not active(): return f(*a, **k)
            state.cur.check()
            pre(*a, **k)
            r = f(*a, **k)
            if post: post(*a, **k)
            return r
        w.__name__ = name
        setattr(os, name, w)
    def need(cond, code, path):
        if cond: raise OSError(code, os.strerror(code), path)
    def pre_mkdir(p, *a, **k):
        if k.get('dir_fd') is None and not os.path.lexists(p) and os.path.isdir(os.path.dirname(os.path.abspath(p))): tick('mkdir', p)
    def pre_rmdir(p, *a, **k):
        if k.get('dir_fd') is not None or (os.path.isdir(p) and not O['listdir'](p)): tick('rmdir', p)
    def pre_remove(p, *a, **k):
        if k.get('dir_fd') is not None or os.path.isfile(p): tick('remove', p)
    def feasible_rename(s, d):
        if not os.path.lexists(s): return False
        if not os.path.isdir(os.path.dirname(os.path.abspath(d))): return False
        if os.path.abspath(s) == os.path.abspath(d): return False
        if os.path.isdir(d):
            return os.path.isdir(s) and not O['listdir'](d) and not os.path.abspath(d).startswith(os.path.abspath(s) + '/')
        if os.path.isdir(s): return not os.path.isfile(d) and not os.path.abspath(d).startswith(os.path.abspath(s) + '/')
        return True
    def pre_rename(s, d, **k):
        world._ren = feasible_rename(s, d)
        if world._ren: tick('rename', (s, d))
    def post_rename(s, d, **k):
        if world._ren: world.touch()
    wrap('mkdir', pre_mkdir); wrap('rmdir', pre_rmdir); wrap('remove', pre_remove); wrap('unlink', pre_remove)
    wrap('rename', pre_rename, post_rename); wrap('replace', pre_rename, post_rename)
    def utime(path, times=None, *a, **k):
        if not active(): return O['utime'](path, times, *a, **k)
        state.cur.check()
        os.stat(path)
        tick('utime', path)
        if times is None and k.get('ns') is None: t = world.touch(); return O['utime'](path, (t, t))
        return O['utime'](path, times, *a, **k)
    os.utime = utime
    os.listdir = lambda *a: sorted(O['listdir'](*a))
    class Scan(list):
        def __enter__(s): return s
        def __exit__(s, *a): pass
        def close(s): pass
        def __next__(s):
            if not s: raise StopIteration
            return s.pop(0)
    def scandir(*a):
        with O['scandir'](*a) as it: return Scan(sorted(it, key=lambda e: e.name))
    os.scandir = scandir
    shutil._USE_CP_SENDFILE = False; shutil._use_fd_functions = False
    # ------------------------------------------------------------------ files
    class File:
        def __init__(self, f, path, proc):
            self.__dict__.update(_f=f, _path=path, _p=proc)
            proc.files.add(self)
        def __getattr__(self, n): return getattr(self._f, n)
        def __setattr__(self, n, v): setattr(self._f, n, v)
        def write(self, data):
            if not active() or state.cur is not self._p:
                r = self._f.write(data); self._f.flush(); return r
            state.cur.check()
            if 'b' in self._f.mode:
                if isinstance(data, str): raise TypeError("a bytes-like object is required, not 'str'")
                n = len(data)
            else:
                if not isinstance(data, str): raise TypeError('write() argument must be str, not ' + type(data).__name__)
                n = len(data.encode(self._f.encoding))
            if n == 0: return 0
            tick('write', self._path)
            if world.partial(state.cur):
                raw = data if 'b' in self._f.mode else data.encode(self._f.encoding)
                (self._f if 'b' in self._f.mode else self._f.buffer).write(raw[:n // 2]); self._f.flush()
                world.die(state.cur)
            r = self._f.write(data); self._f.flush(); world.touch(); stamp(self._path); return r
        def writelines(self, ls):
            for l in ls: self.write(l)
        def truncate(self, *a):
            if active(): state.cur.check(); tick('truncate', self._path)
            r = self._f.truncate(*a); world.touch(); stamp(self._path); return r
        def close(self):
            self._p.files.discard(self)
            self._f.close()
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
        def __iter__(self): return iter(self._f)
        def __next__(self): return next(self._f)
        def __del__(self):
            try: self.close()
            except BaseException: pass
    def open_(path, mode='r', *a, **k):
        if not active() or isinstance(path, int): return oopen(path, mode, *a, **k)
        if 'r' in mode and getattr(world, 'read_hook', None) and state.cur is not None: world.read_hook(state.cur, os.fspath(path))
        if not inside(path): return oopen(path, mode, *a, **k)
        pr = state.cur; pr.check()
        path = os.fspath(path)
        if isinstance(path, bytes): path = os.fsdecode(path)
        if any(c in mode for c in 'wxa'):
            there = os.path.isfile(path)
            if os.path.isdir(path) or path.endswith('/') or not os.path.isdir(os.path.dirname(os.path.abspath(path))) or ('x' in mode and there):
                return oopen(path, mode, *a, **k)
            if not there: tick('create', path); f = oopen(path, mode, *a, **k); world.touch(); stamp(path)
            elif 'w' in mode:
                if os.path.getsize(path): tick('truncate', path)
                f = oopen(path, mode, *a, **k); world.touch(); stamp(path)
            else: f = oopen(path, mode, *a, **k)
        else: f = oopen(path, mode, *a, **k)
        return File(f, os.path.abspath(path), pr)
    builtins.open = io.open = open_
    # ------------------------------------------------------------------ clock, sqlite, S3, sockets, terminal
    time.time = time.monotonic = lambda: world.now()
    time.time_ns = lambda: int(world.now() * 1e9)
    def sleep(s):
        h = getattr(world, 'on_sleep', None)
        if h: h(s)
        world.advance(s)
    time.sleep = sleep
    RealDT = datetime.datetime
    class DT(RealDT):
        @classmethod
        def utcnow(cls): return RealDT.fromtimestamp(world.now(), datetime.timezone.utc).replace(tzinfo=None)
        @classmethod
        def now(cls, tz=None): return RealDT.fromtimestamp(world.now(), tz) if tz else cls.utcnow()
    datetime.datetime = DT
    codec = fakes.Codec()
    world.sync_sql = lambda con: con.execute('pragma synchronous=off')
    def connect(database, timeout=5.0, *a, **k):
        if not active(): return oconnect(database, *a, **k)
        pr = state.cur; pr.check()
        if database != ':memory:' and not os.path.exists(database) and os.path.isdir(os.path.dirname(os.path.abspath(database))):
            tick('create', database); world.touch()
        k['check_same_thread'] = False
        return fakes.SimConnection(world, pr, oconnect(database, timeout=0, *a, **k), codec, database)
    sqlite3.connect = connect
    boto.client = lambda *a, **k: fakes.S3Client(world, state.cur, world.s3, len, lambda ps: b''.join(ps))
    import socket, ssl, urllib.request, tempfile, http.client
    osocket = socket.socket
    def sock(*a, **k):
        if world.sock_factory is None: raise OSError('no network')
        return world.sock_factory(state.cur)
    socket.socket = sock
    def create_connection(addr, *a, **k):
        s = sock(); s.connect(addr); return s
    socket.create_connection = create_connection
    ostart = _thread.start_new_thread
    def start(f, a=(), k=None):
        if world.thread_runner is not None and state.cur is not None: world.thread_runner(state.cur, f, a, k or {}); return 1
        return ostart(f, a, k or {})
    _thread.start_new_thread = start
    otstart = threading.Thread.start
    def tstart(self):
        if world.thread_runner is not None and state.cur is not None and not (getattr(self._target, '__module__', '') or '').startswith('concurrent'):
            world.thread_runner(state.cur, self.run, (), {}); return
        otstart(self)
    threading.Thread.start = tstart
    def inp(prompt=''):
        if not world.inputs: raise EOFError('no more input')
        v = world.inputs.pop(0); return v() if callable(v) else v
    builtins.input = inp
    def gp(*a, **k):
        if not world.passwords: raise EOFError
        v = world.passwords.pop(0); return v() if callable(v) else v
    getpass.getpass = gp
    def pr_(*a, **k):
        if len(world.out) < 400: world.out.append(a)
    builtins.print = pr_
    os.fsync = lambda fd: None
    # ------------------------------------------------------------------ processes
    class PHandle:
        def __init__(self, h, name):
            self.h = h; self.name = name; self.proc = W.Proc(world, name); self.cwd = ROOT; self.mods = {}; self.execs = {}
            self.proc.handle = self
        dead = property(lambda s: s.proc.dead)
        def mod(self, name):
            if name in self.mods: return self.mods[name]
            purge()
            sys.modules.update(self.mods)
            st, state.cur = state.cur, self.proc
            try: m = importlib.import_module(name)
            finally: state.cur = st
            self.mods.update({k: v for k, v in sys.modules.items() if k == 'bversion' or k.startswith('bversion.')})
            return m
        def run(self, fn, *a, **k):
            th = k.pop('thread', None) or 'main'
            if th != 'main':
                ex = self.execs.get(th)
                if ex is None: ex = self.execs[th] = cf.ThreadPoolExecutor(1)
                ot, self.proc.thread = self.proc.thread, th
                try: return ex.submit(self._run, fn, a, k).result()
                finally: self.proc.thread = ot
            return self._run(fn, a, k)
        def _run(self, fn, a, k):
            old = O['getcwd'](); st, state.cur = state.cur, self.proc
            q, world.quiet = world.quiet, 0
            oa, sys.argv = sys.argv, world.argv
            saved = {n: v for n, v in sys.modules.items() if n == 'bversion' or n.startswith('bversion.')}
            purge(); sys.modules.update(self.mods)
            O['chdir'](self.cwd)
            try: return fn(*a, **k)
            finally:
                self.mods.update({n: v for n, v in sys.modules.items() if n == 'bversion' or n.startswith('bversion.')})
                purge(); sys.modules.update(saved)
                self.cwd = O['getcwd'](); O['chdir'](old); state.cur = st; world.quiet = q; sys.argv = oa
        def attempt(self, fn, *a, **k):
            try: r = Outcome('ok', self.run(fn, *a, **k))
            except SimCrash: r = Outcome('crash')
            except SystemExit as e: r = Outcome('exit', exc=e)
            except Exception as e: r = Outcome('exc', exc=e); r.tb = ''.join(traceback.format_exception(e)[-3:]); forget(e)
            if self.proc.dead: r = Outcome('crash')
            return r
        def end_thread(self, name):
            self.proc.end_thread(name)
            ex = self.execs.pop(name, None)
            if ex is not None: ex.shutdown()
        def end(self):
            self.proc.dead = True
            world.quiet += 1
            for f in list(self.proc.files): f.close()
            for c in list(self.proc.cons):
                try: c.close()
                except sqlite3.Error: pass
            world.quiet -= 1
    def purge():
        for n in [n for n in sys.modules if n == 'bversion' or n.startswith('bversion.')]: del sys.modules[n]
    # ------------------------------------------------------------------ harness
    vals = job['inputs']
    class Abort(BaseException): pass
    class RealH(Base):
        symbolic = False
        def __init__(self): self._init(); self.world = world; self.root = ROOT; world.h = self
        def _in(self, name, dflt=0):
            name = self._name(name)
            return vals.get(name, dflt)
        def choose(self, name, n): return 0 if n == 1 else self._in(name)
        def flag(self, name): return bool(self._in(name, False))
        def int(self, name, lo, hi): return self._in(name, lo)
        def real(self, name, lo, hi, den=4): return self._in(name, lo * den) / den
        def _ch(self, name, n): return [self._in('%s[%d]' % (name, i), 97) for i in range(n)]
        def text(self, name, lens, ranges=None):
            n = lens if isinstance(lens, int) else list(lens)[self.choose(name + '.len', len(lens))]
            return ''.join(map(chr, self._ch(name, n)))
        def blob(self, name, lens):
            n = lens if isinstance(lens, int) else list(lens)[self.choose(name + '.len', len(lens))]
            return bytes(self._ch(name, n))
        def content(self, name, ids=4, size=(1, 1000), distinct=()):
            i = self._in(name + '.id'); s = self._in(name + '.size', size[0])
            return gen(i, s)
        def lit(self, i, size=10): return gen(i, size)
        def flip(self, data, pos): return data[:pos] + bytes([data[pos] ^ 1]) + data[pos + 1:]
        def assume(self, c):
            if not c: raise Abort()
        def check(self, c, msg, key=None):
            self.nchecks += 1
            if not c: raise Violation(msg if isinstance(msg, str) else str(msg), key)
        def obs(self, k, v): self.obslog.append([k, canon(v)])
        def note(self, s): pass
        def is_sym(self, v): return False
        def proc(self, name): return PHandle(self, name)
        def arm(self, proc, *a, **k): super().arm(proc.proc, *a, **k)
        def crashed(self, proc): return proc.proc.dead
        def now(self): return world.now()
        def json(self, data): return json.dumps(data).encode("utf8")
        def sha(self, d): return hashlib.sha256(d).hexdigest()
        def mkdirs(self, path): O['makedirs'](path, exist_ok=True)
        def write(self, path, data, mtime=None, tick=True):
            self.mkdirs(os.path.dirname(path))
            with oopen(path, 'wb') as f: f.write(data)
            t = world.touch() if mtime is None else mtime
            O['utime'](path, (t, t))
        def setmtime(self, path, t): O['utime'](path, (t, t))
        def mtime(self, path): return O['stat'](path).st_mtime
        def read(self, path):
            with oopen(path, 'rb') as f: return f.read()
        def isfile(self, p): return os.path.isfile(p)
        def isdir(self, p): return os.path.isdir(p)
        def exists(self, p): return os.path.exists(p)
        def rm(self, p): O['remove'](p)
        def rmtree(self, p): shutil.rmtree(p)
        def rename(self, a, b): O['rename'](a, b); world.touch()
        def listdir(self, p): return sorted(O['listdir'](p))
        def tree(self, path, skip=()):
            out = {}
            for d, ds, fs in os.walk(path):
                for f in fs:
                    full = os.path.join(d, f); q = full[len(path):]
                    with oopen(full, 'rb') as fh: data = fh.read()
                    if data[:15] == b'SQLite format 3' or f.endswith('-journal') or (f.endswith('.db') and not data): continue
                    if not any(q.startswith(s) for s in skip): out[q] = data
            return out
        def dirs(self, path, skip=()):
            out = []
            for d, ds, fs in os.walk(path):
                for x in sorted(ds):
                    q = os.path.join(d, x)[len(path):]
                    if not any((q + '/').startswith(s) for s in skip): out.append(q)
            return out
        def copytree(self, a, b): shutil.copytree(a, b)
        def rows(self, db, sql, args=()):
            if not os.path.exists(db): return None
            c = oconnect(db, timeout=0)
            try: return [tuple(r) for r in c.execute(sql, args).fetchall()]
            finally: c.close()
        def sqlexec(self, db, stmts):
            c = oconnect(db, timeout=0)
            try:
                for s, a in stmts: c.execute(s, a)
                c.commit()
            finally: c.close()
    h = RealH()
    O['chdir'](ROOT)
    m = importlib.import_module('checks.' + job['check'])
    fn = getattr(m, job['scenario'])
    try:
        fn(h, **job['params'])
        res = {'outcome': 'ok'}
    except Violation as v: res = {'outcome': 'violation', 'msg': v.msg, 'key': v.key}
    except Abort: res = {'outcome': 'abort'}
    except SimCrash: res = {'outcome': 'error', 'msg': 'crash escaped the harness'}
    except BaseException as e:
        res = {'outcome': 'violation', 'msg': 'unexpected %s: %s' % (type(e).__name__, e), 'key': None, 'tb': ''.join(traceback.format_exception(e))[-3000:]}
    res['obs'] = h.obslog; res['checks'] = h.nchecks
    return res

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
