"""Parallel exploration of all paths of the scenarios of one check, and judgement of what was found."""
import gc, hashlib, heapq, json, multiprocessing as mp, os, pickle, queue, select, shutil, subprocess, sys, tempfile, time, traceback
from . import core, env_sym, harness
from .core import Engine, EngineAbort, PathAbort, Inconclusive, PathDone, Hang
from .world import SimCrash

REALPY = os.environ.get('SYMX_REALPY', '/opt/venv/bin/python')
NOBODY = 65534

class Result:
    def __init__(self): self.kind = 'ok'; self.msg = None; self.key = None; self.tb = None

_modcache = {}
def check_fn(h, check, name):
    m = h.hp.load('checks.' + check)
    return getattr(m, name)

def run_path(eng, check, scn, prefix):
    """One path of one scenario; returns (Result, SymH)."""
    eng.start(prefix); core.cur = eng
    eng.loop_limit = scn.get('loops', 200000)
    w = env_sym.SymWorld(); h = None
    r = Result()
    try:
        h = harness.SymH(eng, w)
        fn = check_fn(h, check, scn['fn'])
        fn(h, **scn.get('params', {}))
        if eng.dead is not None: raise eng.dead
    except EngineAbort: pass
    except SimCrash:
        if eng.dead is None: r.kind = 'undecided'; r.msg = 'crash escaped the harness'
    except RecursionError as e:
        if eng.dead is None: r.kind = 'undecided'; r.msg = 'recursion limit: %s' % e
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)): raise
        if eng.dead is None:
            r.kind = 'violation'; r.msg = 'unexpected %s: %s' % (type(e).__name__, e)
            r.tb = ''.join(traceback.format_exception(e))[-3000:]
    if eng.dead is not None:
        d = eng.dead
        if isinstance(d, PathAbort): r.kind = 'abort'
        elif isinstance(d, PathDone): r.kind = 'violation'; r.msg, r.key = eng.path_state['violation']
        elif isinstance(d, Hang): r.kind = 'violation'; r.msg = 'does not terminate (%s)' % d; r.key = 'hang'
        else: r.kind = 'undecided'; r.msg = str(d)
    eng.finish()
    return r, h, w

def worker(wid, check, scns, tasks, results, outstanding, idle, stop, deadline, seed, nsamples, maxtrail):
    gc.disable()
    sys.setrecursionlimit(20000)
    eng = Engine(seed)
    eng.max_trail = maxtrail
    stats = {}; functions = {}; covers = set(); undecided = {}; reservoir = []; nobs = 0
    last = None
    n = 0
    fin = dict(ok=0, abort=0, violation=0, undecided=0)
    per = {}
    def flush(final=False):
        results.put(('stats', wid, pickle.dumps(dict(stats=dict(eng.stats), functions=dict(eng.functions), covers=covers, undecided=undecided, fin=fin, per=per))))
    while not stop.value:
        with idle.get_lock(): idle.value += 1
        task = None
        while not stop.value:
            try: task = tasks.get(timeout=0.05); break
            except queue.Empty:
                if outstanding.value <= 0: break
        with idle.get_lock(): idle.value -= 1
        if task is None: break
        si, stack = task
        scn = scns[si]
        if last != si:
            last = si; eng.solver.reset(); eng.solver.set('random_seed', seed % 1000); eng.solver.set('timeout', 30000)
            eng.levels = []; eng.level_pos = []; eng.prev_trail = []
        while stack and not stop.value:
            if time.time() > deadline: stop.value = 2; break
            prefix = stack.pop()
            eng.pending = []
            try: r, h, w = run_path(eng, check, scn, prefix)
            except BaseException as e:
                r = Result(); r.kind = 'undecided'; r.msg = 'engine error: ' + ''.join(traceback.format_exception(e))[-1500:]; h = None; w = None
                eng.solver.reset(); eng.levels = []; eng.level_pos = []; eng.prev_trail = []; eng.prefix = []
            eng.stats['paths'] += 1
            fin[r.kind] += 1
            p = per.setdefault(scn['name'], dict(paths=0, checks=0)); p['paths'] += 1
            if h is not None: p['checks'] += h.nchecks
            if h is not None and r.kind in ('ok', 'violation'): covers |= {(scn['name'], c) for c in h.covers}
            new = eng.pending
            try:
                if r.kind == 'violation':
                    if r.key == 'hang' or not isinstance(eng.dead, Inconclusive):
                        results.put(('violation', wid, (si, r.msg, r.key, h.model_inputs(), r.tb, [list(map(str, x)) for x in w.log][:20])))
                elif r.kind == 'undecided':
                    k = (scn['name'], r.msg)
                    if k not in undecided:
                        undecided[k] = 0
                        try: inp = h.model_inputs() if h is not None else None
                        except BaseException: inp = None
                        results.put(('undecided', wid, (si, r.msg, inp)))
                    undecided[k] += 1
                elif r.kind == 'ok':
                    hh = hashlib.sha256(repr((si, seed, [(t[0], t[1]) for t in eng.trail])).encode()).hexdigest()
                    if len(reservoir) < nsamples or hh < reservoir[-1][0]:
                        inp = h.model_inputs(); ob = h.concrete_obs()
                        reservoir.append((hh, si, inp, ob, h.nchecks)); reservoir.sort(key=lambda t: t[0]); del reservoir[nsamples:]
            except EngineAbort as e:
                k = (scn['name'], 'model: %s' % e); undecided[k] = undecided.get(k, 0) + 1
            if w is not None: w.close()
            h = w = None
            stack += new
            with outstanding.get_lock(): outstanding.value += len(new) - 1
            n += 1
            if n % 40 == 0: gc.collect()
            if n % 200 == 0: flush()
            if idle.value > 0 and len(stack) > 1:
                half = max(1, len(stack) // 2)
                give, stack = stack[:half], stack[half:]
                k = max(1, len(give) // max(1, idle.value))
                for i in range(0, len(give), k): tasks.put((si, give[i:i + k]))
    results.put(('samples', wid, reservoir))
    flush(True)
    results.put(('done', wid, None))
    results.close(); results.join_thread()
    tasks.cancel_join_thread()
    os._exit(0)

# ------------------------------------------------------------------------------------------------ real replays
def replay(check, scn, inputs, timeout=60, repo=None):
    """Run one concrete assignment against the unmodified code; returns the result dict."""
    repo = repo or env_sym.REPO
    top = tempfile.mkdtemp(prefix='symx-')
    try:
        os.chmod(top, 0o755)
        root = os.path.join(top, 'a', 'b', 'c', 'w')
        os.makedirs(root)
        for d, ds, fs in os.walk(top):
            os.chown(d, NOBODY, NOBODY)
        job = os.path.join(top, 'job.json')
        with open(job, 'w') as f:
            json.dump(dict(check=check, scenario=scn['fn'], params=scn.get('params', {}), inputs=inputs, root=root, repo=repo, verif=env_sym.VERIF), f)
        os.chmod(job, 0o644)
        env = {'PATH': '/usr/bin:/bin', 'HOME': root, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'LANG': 'C.UTF-8'}
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.getuid() == 0 else {}
        try:
            p = subprocess.run([REALPY, '-B', os.path.join(env_sym.VERIF, 'symx', 'real.py'), job], cwd=root, env=env, capture_output=True, timeout=timeout, **kw)
        except subprocess.TimeoutExpired:
            return {'outcome': 'hang', 'msg': 'does not terminate', 'obs': []}
        try: return json.loads(p.stdout.decode().strip().splitlines()[-1])
        except Exception: return {'outcome': 'error', 'msg': 'no result: %s %s' % (p.stdout[-500:], p.stderr[-1500:]), 'obs': []}
    finally:
        shutil.rmtree(top, ignore_errors=True)

# ------------------------------------------------------------------------------------------------ master
def explore(check, scns, budget, seed=1, jobs=8, nsamples=12, maxtrail=20000, progress=None, on_violation=None):
    """Explore every path of every scenario.  Returns a dict of everything learnt."""
    env_sym.preload()
    t0 = time.time()
    tasks = mp.Queue(); results = mp.Queue()
    outstanding = mp.Value('l', len(scns)); idle = mp.Value('i', 0); stop = mp.Value('i', 0)
    for i in range(len(scns)): tasks.put((i, [[]]))
    deadline = t0 + budget
    ps = [mp.Process(target=worker, args=(i, check, scns, tasks, results, outstanding, idle, stop, deadline, seed, nsamples, maxtrail), daemon=True) for i in range(jobs)]
    for p in ps: p.start()
    st = {}; viol = []; und = []; samples = []; done = 0; crashed = 0
    seen = {}
    while done < jobs:
        try: kind, wid, v = results.get(timeout=1)
        except queue.Empty:
            dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and len(dead) != crashed: crashed = len(dead); stop.value = 3
            if len([p for p in ps if not p.is_alive()]) == jobs: break
            if time.time() > deadline + 60: break
            continue
        if kind == 'stats': st[wid] = pickle.loads(v)
        elif kind == 'samples': samples += v
        elif kind == 'undecided': und.append(v)
        elif kind == 'violation':
            k = (v[0], v[1] if not v[1].startswith('unexpected') else v[1][:60], v[2])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3:
                viol.append(v)
                if on_violation and on_violation(v): stop.value = 1
        elif kind == 'done': done += 1
    for p in ps:
        p.join(timeout=2)
        if p.is_alive(): p.kill()
    tot = dict(paths=0, queries=0, solver_s=0.0, branches=0, forks=0, checks=0, implied=0)
    fin = dict(ok=0, abort=0, violation=0, undecided=0); fns = {}; covers = set(); undec = {}; per = {}
    for s in st.values():
        for k in tot: tot[k] += s['stats'].get(k, 0)
        for k in fin: fin[k] += s['fin'][k]
        for k, n in s['functions'].items(): fns[k] = fns.get(k, 0) + n
        covers |= s['covers']
        for k, n in s['undecided'].items(): undec[k] = undec.get(k, 0) + n
        for k, d in s['per'].items():
            q = per.setdefault(k, dict(paths=0, checks=0))
            for z in d: q[z] += d[z]
    samples.sort(key=lambda t: t[0])
    return dict(total=tot, fin=fin, functions=fns, covers=covers, undecided=undec, undecided_cases=und, violations=viol, samples=samples, per=per,
                complete=stop.value == 0 and outstanding.value <= 0 and not crashed, stopped=stop.value, crashed=crashed, wall=time.time() - t0, vcount=seen)
