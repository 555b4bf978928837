"""Real threads, one of which runs at a time: a seeded scheduler passes the baton.

Explicit mode: a thread gives up the baton only where it calls yield_().  Preemptive mode: also after a seeded number of
source lines executed in the modules named.  Locks made through `threading` while install_locks() is in force belong to the
scheduler, so that a thread that is preempted while it holds one does not stop the simulation.
"""
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT = [None]       # the simulation in force
OWN = {}               # thread ident -> actor


def importing(frame):
    """The interpreter's import locks are none of the scheduler's: nobody is preempted while holding one."""
    while frame is not None:
        if "importlib" in frame.f_code.co_filename:
            return True
        frame = frame.f_back
    return False


class Deadlock(Exception):
    pass


class Actor:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.go = _real_lock()
        self.go.acquire()
        self.done = False
        self.error = None
        self.result = None
        self.blocked = None        # predicate that must hold before it can go on
        self.left = 0
        self.switches = 0

    def start(self):
        threading.Thread(target=self._main, daemon=True).start()

    def _main(self):
        self.go.acquire()
        OWN[_thread.get_ident()] = self
        try:
            if self.sim.kill:
                return
            if self.sim.where:
                sys.settrace(self.sim._trace)
            self.result = self.fn()
        except BaseException as e:     # noqa: handed to the main thread
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            OWN.pop(_thread.get_ident(), None)
            self.sim.back.release()


class Sim:
    def __init__(self, rng, where=None, mean=0, policy="random"):
        """where: predicate on file names traced; mean: mean number of lines between switches."""
        self.rng, self.where, self.mean, self.policy = rng, where, mean, policy
        self.actors = []
        self.back = _real_lock()
        self.back.acquire()
        self.trace = []            # (actor index) in order of execution slices
        self.places = set()        # where preemptions happened
        self.lines = 0
        self.kill = False
        self.cache = {}
        self.stalled = None
        self.visits = {}
        self.parked = {}           # line -> actor held there
        self.prefer = None
        self.meetings = 0

    def spawn(self, name, fn):
        a = Actor(self, name, fn)
        self.actors.append(a)
        a.start()
        return a

    # ---- in actor threads
    def yield_(self, blocked=None):
        a = OWN.get(_thread.get_ident())
        if a is None or a.sim is not self:
            return
        a.blocked = blocked
        a.switches += 1
        self.back.release()
        a.go.acquire()
        a.blocked = None
        if self.kill:
            raise SystemExit

    def _quantum(self):
        m = self.mean
        if self.policy == "bursty" and self.rng.random() < 0.3:
            return 1 + int(self.rng.random() * 3)
        return 1 + int(self.rng.expovariate(1.0 / m))

    def _trace(self, frame, event, arg):
        f = frame.f_code
        ok = self.cache.get(f)
        if ok is None:
            ok = self.cache[f] = bool(self.where(f.co_filename)) and f.co_name != "<module>"
        if not ok:
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            a = OWN.get(_thread.get_ident())
            if a is None:
                return self._line
            self.lines += 1
            if self.policy == "rare":
                # lines seldom reached are where preemptions pay
                k = (frame.f_code, frame.f_lineno)
                v = self.visits.get(k, 0)
                self.visits[k] = v + 1
                a.left = 0 if self.rng.random() * (v + 1.5) < 1.0 else 1
            elif self.policy == "meet":
                # hold a thread at a line seldom reached until another one gets there
                k = (frame.f_code, frame.f_lineno)
                v = self.visits.get(k, 0)
                self.visits[k] = v + 1
                other = self.parked.pop(k, None)
                if other is not None and other is not a:
                    self.meetings += 1
                    if self.rng.random() < 0.7:
                        self.prefer = other
                    a.left = 0
                elif self.rng.random() * (v + 1) < 0.2 * self.rng.random() and not importing(frame):
                    self.parked[k] = a
                    a.left = 0
                else:
                    a.left = 1
            else:
                a.left -= 1
            if a.left <= 0 and not importing(frame):
                self.places.add("%s:%d" % (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno))
                self.yield_()
        return self._line

    # ---- in the main thread
    def run(self):
        CURRENT[0] = self
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e6)     # only the one with the baton runs; the clock the interpreter waits by is simulated
        try:
            last = None
            while True:
                live = [k for k, a in enumerate(self.actors) if not a.done]
                if not live:
                    break
                ready = [k for k in live if self.actors[k].blocked is None or self.actors[k].blocked()]
                if not ready:
                    raise Deadlock("every thread waits for a lock")
                if self.policy == "sticky" and last in ready and self.rng.random() < 0.6:
                    k = last
                else:
                    k = ready[self.rng.randrange(len(ready))]
                if self.policy == "stall" and len(ready) > 1:
                    if self.stalled is None and self.rng.random() < 0.02:
                        self.stalled = k       # this one stops where it is until all others are done
                    if k == self.stalled:
                        others = [j for j in ready if j != k]
                        k = others[self.rng.randrange(len(others))]
                if self.policy == "meet":
                    held = set(map(id, self.parked.values()))
                    free = [j for j in ready if id(self.actors[j]) not in held]
                    if not free:
                        self.parked.pop(next(iter(self.parked)))
                        continue
                    k = free[self.rng.randrange(len(free))]
                    if self.prefer is not None and not self.prefer.done:
                        k = self.actors.index(self.prefer)
                        k = k if k in ready else free[0]
                    self.prefer = None
                last = k
                a = self.actors[k]
                if not self.trace or self.trace[-1] != k:
                    self.trace.append(k)
                if self.mean:
                    a.left = self._quantum()
                a.go.release()
                self.back.acquire()
                if a.done and a.error is not None:
                    raise a.error
        finally:
            self.kill = True
            for a in self.actors:
                while not a.done:
                    a.go.release()
                    self.back.acquire()
            CURRENT[0] = None
            sys.setswitchinterval(interval)


class SimLock:
    """threading.Lock that hands the baton on instead of blocking."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        a = OWN.get(_thread.get_ident())
        if a is None:
            return self._l.acquire(blocking, timeout)
        if not blocking:
            return False
        while not self._l.acquire(False):
            a.sim.yield_(lambda: not self._l.locked())
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if not self._l.acquire(blocking, timeout):
            return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # for Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        s = self._n
        self._owner, self._n = None, 0
        self._l.release()
        return s

    def _acquire_restore(self, s):
        self._l.acquire()
        self._owner, self._n = _thread.get_ident(), s

    def _at_fork_reinit(self):
        self._l = SimLock()
        self._owner, self._n = None, 0

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


def remove_locks():
    threading.Lock = _real_lock
    threading.RLock = _real_rlock
