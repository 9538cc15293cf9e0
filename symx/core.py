"""Path-exploring symbolic execution core: every branch on a symbolic condition is decided by z3.

A harness is re-executed once per path.  `branch(cond)` returns a plain bool: the solver is asked which sides are
feasible under the path condition; if both are, the untaken side is scheduled as a prefix of decisions and explored
later.  Re-execution must be deterministic (checked by comparing condition hashes along replayed prefixes).
"""
import hashlib, os, sys, time, traceback
import z3

class EngineAbort(BaseException):
    """Base of all engine exceptions; never caught by code under test (once one is raised the engine is dead for the path)."""
class PathAbort(EngineAbort): pass       # assumption false / infeasible
class Inconclusive(EngineAbort): pass    # solver unknown or unsupported operation
class PathDone(EngineAbort): pass        # a violation was recorded: stop the path
class Hang(EngineAbort): pass            # loop budget exceeded

cur = None   # the running Engine

class Engine:
    def __init__(self, seed=0, timeout_ms=30000):
        self.seed = seed
        self.solver = z3.Solver()
        self.solver.set('random_seed', seed % 1000)
        self.solver.set('timeout', timeout_ms)
        self.levels = []          # conditions currently pushed on the solver
        self.level_pos = []       # trail index of each level
        self.prev_trail = []
        self.pending = []         # prefixes to explore
        self.stats = dict(queries=0, solver_s=0.0, paths=0, branches=0, forks=0, aborted=0, checks=0, implied=0)
        self.functions = {}
        self.loop_limit = 200000
        self.max_trail = 20000

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            for e in extra: self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown: self.die(Inconclusive('solver returned unknown: ' + self.solver.reason_unknown()))
        return r == z3.sat, m

    def die(self, exc):
        if self.dead is None: self.dead = exc
        raise self.dead

    # ---------------------------------------------------------------- paths
    def start(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.dead = None
        self.model = None
        self.names = {}
        self.loops = 0
        self.path_state = {}     # scratch space for models (hash registry, clocks, ...)
        self.axioms = []
        common = 0
        for a, b in zip(prefix, self.prev_trail):
            if a != b: break
            common += 1
        # levels whose trail index is inside the common part stay
        while self.level_pos and self.level_pos[-1] >= common:
            self.solver.pop(); self.level_pos.pop(); self.levels.pop()
        self.kept = len(self.level_pos)
        self.kept_used = 0

    def finish(self):
        self.prev_trail = self.trail

    def _push(self, cond):
        """Assert cond as the constraint of the trail entry being appended now."""
        if self.kept_used < self.kept:
            if self.level_pos[self.kept_used] != len(self.trail):
                self.die(Inconclusive('nondeterministic re-execution (solver levels)'))
            self.kept_used += 1
            return
        self.solver.push(); self.solver.add(cond)
        self.levels.append(cond); self.level_pos.append(len(self.trail))
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def _get_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok: self.die(PathAbort('infeasible'))
            self.model = m
        return self.model

    def branch(self, cond, what=''):
        if self.dead is not None: raise self.dead
        if cond is True or cond is False: return cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        self.stats['branches'] += 1
        i = len(self.trail)
        if i > self.max_trail: self.die(Inconclusive('path too long'))
        h = cond.hash() & 0xffffffff
        if i < len(self.prefix):
            d, kind, ph = self.prefix[i]
            if ph != h: self.die(Inconclusive('nondeterministic re-execution at decision %d: %s' % (i, cond)))
            if kind == 'F': self._push(cond if d else z3.Not(cond))
            self.trail.append((d, kind, h))
            return d
        m = self._get_model()
        d = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if d else cond
        ok, _ = self._check(other)
        if not ok:
            self.stats['implied'] += 1
            self.trail.append((d, 'I', h))
            return d
        self.stats['forks'] += 1
        self.pending.append(self.trail + [(not d, 'F', h)])
        self._push(cond if d else z3.Not(cond))
        self.trail.append((d, 'F', h))
        return d

    def assume(self, cond, check=True):
        if self.dead is not None: raise self.dead
        if isinstance(cond, bool):
            if cond: return
            self.die(PathAbort('assume'))
        if z3.is_true(cond): return
        if z3.is_false(cond): self.die(PathAbort('assume'))
        h = cond.hash() & 0xffffffff
        i = len(self.trail)
        if i < len(self.prefix):
            d, kind, ph = self.prefix[i]
            if kind != 'A' or ph != h: self.die(Inconclusive('nondeterministic re-execution (assume)'))
            self._push(cond); self.trail.append((True, 'A', h)); return
        if check and not (self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True))):
            ok, m = self._check(cond)
            if not ok: self.die(PathAbort('assume'))
            self._push(cond); self.model = m
        else: self._push(cond)
        self.trail.append((True, 'A', h))

    def fresh(self, name, sort='int'):
        k = self.names.get(name, 0); self.names[name] = k + 1
        n = name if k == 0 else '%s!%d' % (name, k)
        return z3.Int(n) if sort == 'int' else z3.Real(n) if sort == 'real' else z3.Bool(n)

    def concretise(self, expr, limit=300):
        """Fork over every feasible value of expr."""
        if isinstance(expr, (int, float)): return expr
        for _ in range(limit):
            if self.dead is not None: raise self.dead
            i = len(self.trail)
            h = expr.hash() & 0xffffffff
            if i < len(self.prefix):          # candidates are part of the trail, so re-execution reproduces them
                v, kind, ph = self.prefix[i]
                if kind != 'C' or ph != h: self.die(Inconclusive('nondeterministic re-execution (concretise)'))
            else:
                v = _num(self._get_model().eval(expr, model_completion=True))
            self.trail.append((v, 'C', h))
            if self.branch(expr == v): return v
        self.die(Inconclusive('too many values to concretise: %s' % expr))

    def values(self, exprs, m):
        """Concrete values of the given expressions in a model of the path condition (for replay)."""
        out = []
        for e in exprs:
            if not z3.is_expr(e): out.append(e); continue
            v = m.eval(e, model_completion=True)
            out.append(v.as_long() if z3.is_int_value(v) else
                       [v.numerator_as_long(), v.denominator_as_long()] if z3.is_rational_value(v) else z3.is_true(v))
        return out

    def loop(self):
        self.loops += 1
        if self.dead is not None: raise self.dead
        if self.loops > self.loop_limit: self.die(Hang('loop budget exceeded'))

def _num(v):
    return v.as_long() if z3.is_int_value(v) else float(v.as_fraction())

def branch(c): return cur.branch(c)
