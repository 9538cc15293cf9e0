"""What symbolic runs and real replays share: process lives, crash points, the logical clock, the scheduler of observers."""

import weakref
T0 = 1600000000.0

class SimCrash(BaseException):
    """The simulated process dies here; every further primitive of that process raises it again."""

class Proc:
    """One process life: its own module instances, open files, locks and database connections."""
    def __init__(self, world, name):
        self.world = world; self.name = name; self.dead = False
        self.mods = {}; self.files = weakref.WeakSet(); self.cons = []; self.cwd = None
        self.thread = 'main'; self.locals = {}
        self.hooks = {}
    def check(self):
        if self.dead: raise SimCrash()
    def end_thread(self, name):
        """A thread is over: its database connections go, and with them their open transactions."""
        for c in list(self.cons):
            if c._thread == name: c.close(); self.cons.remove(c)

class World:
    """Common part; `decide(n)` answers whether the armed process dies at tick n."""
    def __init__(self):
        self.clock = 0.0
        self.crash_proc = None
        self.crash_decide = None
        self.ticks = 0
        self.observers = []
        self.stmt_observers = []
        self.quiet = 0          # >0 while the harness (not the code under test) touches the environment
        self.log = []
        self.fault = None       # callable(kind, detail) -> None or exception to raise
        self.trace = []

    def now(self): return T0 + self.clock
    def advance(self, s): self.clock = self.clock + s
    def touch(self):
        self.clock = self.clock + 1.0
        return self.now()

    def die(self, proc):
        proc.dead = True
        self.log.append(('crash', self.ticks))
        raise SimCrash()

    def tick(self, proc, kind, detail=''):
        """Called before every mutating primitive of `proc`."""
        if self.quiet: return
        proc.check()
        if self.fault is not None:
            ex = self.fault(proc, kind, detail)
            if ex is not None: raise ex
        n = self.ticks; self.ticks += 1
        if self.observers:
            for o in list(self.observers): o(proc, kind, detail)
        if self.crash_proc is proc and self.crash_decide(n): self.die(proc)

    def point(self, proc, kind, detail=''):
        """Called before every database statement of `proc`: only a place where others may run, not a crash point."""
        if self.quiet: return
        for o in list(self.stmt_observers): o(proc, kind, detail)

    def partial(self, proc):
        """Between the halves of a data write: True when the process is to die after the first half."""
        if self.quiet: return False
        if self.crash_proc is proc:
            n = self.ticks; self.ticks += 1
            return self.crash_decide(n)
        return False

# ------------------------------------------------------------------------------------------------ fake sockets
class SockClosed(Exception): pass
