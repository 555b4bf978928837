"""joblib's process and thread pools replaced by a pool whose execution order a seeded generator decides.

Tasks run one at a time in this process; with process pools each goes through a pickle round trip, as it would between
processes, so that workers share nothing with the caller.
"""
import pickle

from joblib import parallel as jp
from joblib._parallel_backends import FallbackToBackend, ParallelBackendBase, SequentialBackend

try:
    from cloudpickle import dumps
except ImportError:
    try:
        from joblib.externals.cloudpickle import dumps
    except ImportError:
        from pickle import dumps

try:
    from joblib.externals.loky.process_executor import TerminatedWorkerError
except ImportError:
    class TerminatedWorkerError(RuntimeError):
        pass

STATE = dict(rng=None, policy="fifo", cpus=8, tasks=0, calls=0, swaps=0, order=[], before=None, kill=None)
_saved = {}


class Job:
    def __init__(self, backend, func, callback):
        self.backend, self.func, self.callback = backend, func, callback
        self.done = False
        self.error = self.result = None
        self.n = backend.submitted
        backend.submitted += 1
        backend.queue.append(self)

    def run(self):
        b = self.backend
        b.queue.remove(self)
        STATE["tasks"] += 1
        STATE["order"].append(self.n)
        if b.queue and self.n > min(j.n for j in b.queue):
            STATE["swaps"] += 1
        if STATE["before"]:
            STATE["before"]()
        try:
            if STATE["kill"] is not None and b.processes and STATE["tasks"] > STATE["kill"]:
                STATE["kill"] = None
                raise TerminatedWorkerError("a worker process was killed")
            f = self.func
            if b.processes:
                r = pickle.loads(dumps(pickle.loads(dumps(f))()))
            else:
                r = f()
            self.result = r
        except BaseException as e:      # noqa: goes to whoever asks for the result
            self.error = e
        self.done = True
        if self.callback is not None and not b.aborted:
            self.callback(self)

    def get(self):
        while not self.done:
            self.backend.progress()
        if self.error is not None:
            raise self.error
        return self.result


class SimBackend(ParallelBackendBase):
    supports_timeout = False
    supports_retrieve_callback = False
    supports_inner_max_num_threads = False
    supports_sharedmem = False
    uses_threads = False
    processes = True

    def __init__(self, nesting_level=None, inner_max_num_threads=None, **kw):
        super().__init__(nesting_level=nesting_level)
        self.queue, self.submitted, self.aborted, self.straggler = [], 0, False, None

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        return max(STATE["cpus"] + 1 + n_jobs, 1) if n_jobs < 0 else n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        n = self.effective_n_jobs(n_jobs)
        if n == 1:
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        self.queue, self.submitted, self.aborted = [], 0, False
        STATE["calls"] += 1
        r = STATE["rng"]
        self.straggler = r.randrange(4) if r else None
        return n

    def submit(self, func, callback=None):
        j = Job(self, func, callback)
        r = STATE["rng"]
        if r is not None and STATE["policy"] == "eager" and r.random() < 0.5:
            self.progress()
        return j

    def progress(self):
        """Run one of the tasks that wait."""
        q, p, r = self.queue, STATE["policy"], STATE["rng"]
        if r is None or p == "fifo":
            k = 0
        elif p == "lifo":
            k = len(q) - 1
        elif p == "straggler":
            k = next((i for i, j in enumerate(q) if j.n != self.straggler), 0)
        else:
            k = r.randrange(len(q))
        q[k].run()

    def abort_everything(self, ensure_ready=True):
        self.aborted = True
        self.queue = []

    def get_nested_backend(self):
        n = (self.nesting_level or 0) + 1
        if n > 1:
            return SequentialBackend(nesting_level=n), None
        return SimThreads(nesting_level=n), None


class SimThreads(SimBackend):
    supports_sharedmem = True
    uses_threads = True
    processes = False


def install(rng, policy="random", cpus=8, kill=None):
    if not _saved:
        _saved.update(jp.BACKENDS)
    STATE.update(rng=rng, policy=policy, cpus=cpus, tasks=0, calls=0, swaps=0, order=[], kill=kill)
    jp.BACKENDS.update(loky=SimBackend, multiprocessing=SimBackend, threading=SimThreads)
    jp.EXTERNAL_BACKENDS.clear()


def remove():
    if _saved:
        jp.BACKENDS.update(_saved)
