"""Everything nondeterministic that pystruct touches, behind the current World:
clock, worker pool, QP/LP/AD3 solvers, core count.  Installed before pystruct
is imported, so that `from time import time` binds the simulated one too.
With no world entered every seam is the real thing."""
import io
import multiprocessing
import os
import pickle
import random
import sys
import time

from .core import World

real_time = time.time
real_perf = time.perf_counter
real_mono = time.monotonic
real_sleep = time.sleep
real_cpus = os.cpu_count
REAL = {}


# -- clock ---------------------------------------------------------------------
def sim_time():
    w = World.current
    if w is None:
        return real_time()
    if w.clock_hook is not None:
        w.clock_hook(w)
    return w.clock.wall()


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_perf():
    w = World.current
    return real_perf() if w is None else w.clock.mono


def sim_mono():
    w = World.current
    return real_mono() if w is None else w.clock.mono


def sim_sleep(s):
    w = World.current
    if w is None:
        return real_sleep(s)
    w.clock.advance(s)
    b = Pool.active
    if b is not None:
        b.pump()
    elif w.threads is not None:
        w.threads.switch("sleep")
    else:
        w.point("sleep", s)


World.clock_hook = None


# -- worker pool -----------------------------------------------------------------
class Workers:
    """How the simulated pool behaves in one run."""

    def __init__(self, tape, mode="shared", order="fifo", batch=1,
                 readonly=False, cpus=4, gap=0, opcodes=False):
        self.tape = tape
        self.mode = mode          # shared | copy | threads
        self.order = order        # fifo | lifo | random | starve
        self.batch = batch        # tasks per joblib batch
        self.readonly = readonly  # big arrays arrive read-only (memmapped)
        self.cpus = cpus
        self.gap = gap
        self.opcodes = opcodes
        self.kill = None          # f(task number) -> exception or None
        self.tasks = 0
        self.in_worker = 0
        self.completion = []
        self.calls = 0

    def describe(self):
        return ("workers: %s memory, %s completion, joblib batch %d, "
                "%d cpus%s" % (self.mode, self.order, self.batch, self.cpus,
                               ", read-only arrays" if self.readonly else ""))


class _Task:
    def __init__(self, func, callback, number):
        self.func, self.callback, self.number = func, callback, number
        self.value = self.error = None

    def get(self):
        if self.error is not None:
            raise self.error
        return self.value


def _dumps(obj):
    try:
        from cloudpickle import dumps
    except ImportError:
        from pickle import dumps
    bufs = []
    data = dumps(obj, protocol=5, buffer_callback=bufs.append)
    return data, [b.raw().tobytes() for b in bufs]


def _loads(blob, readonly):
    data, bufs = blob
    return pickle.loads(data, buffers=[b if readonly else bytearray(b)
                                       for b in bufs])


class Pool:
    active = None


def make_backend():
    from joblib._parallel_backends import (ParallelBackendBase,
                                           SequentialBackend,
                                           FallbackToBackend)

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_sharedmem = True
        uses_threads = True

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            if n_jobs < 0:
                return max(self.workers().cpus + 1 + n_jobs, 1)
            return n_jobs

        def workers(self):
            w = World.current
            if w is None:
                return Workers(None)
            if w.backend is None:
                w.backend = Workers(w.tape)
            return w.backend

        def configure(self, n_jobs=1, parallel=None, prefer=None,
                      require=None, **kw):
            n = self.effective_n_jobs(n_jobs)
            if n == 1:
                raise FallbackToBackend(
                    SequentialBackend(nesting_level=self.nesting_level))
            self.parallel = parallel
            self.n = n
            self.pending = []
            self.prev_active = Pool.active
            Pool.active = self
            self.workers().calls += 1
            return n

        def terminate(self):
            self.pending = []
            if Pool.active is self:
                Pool.active = self.prev_active

        def abort_everything(self, ensure_ready=True):
            self.pending = []

        def compute_batch_size(self):
            return self.workers().batch

        def get_nested_backend(self):
            return SequentialBackend(
                nesting_level=(self.nesting_level or 0) + 1), None

        def submit(self, func, callback=None):
            k = self.workers()
            k.tasks += 1
            t = _Task(func, callback, k.tasks)
            if k.mode == "copy":
                t.blob = _dumps(func)
            self.pending.append(t)
            return t

        def retrieve_result_callback(self, out):
            return out.get()

        # -- the scheduler ---------------------------------------------------
        def _pick(self, k):
            n = min(len(self.pending), self.n)   # one task per worker
            if k.order == "fifo" or n == 1:
                return 0
            if k.order == "lifo":
                return n - 1
            if k.order == "starve":              # the first worker is stalled
                return 1 if n > 1 else 0
            return k.tape.draw(n, "worker")

        def _run(self, k, t):
            w = World.current
            k.in_worker += 1
            try:
                boom = k.kill(t.number) if k.kill else None
                if boom is not None:
                    t.error = boom
                    return
                if k.mode == "copy":
                    t.value = _loads(_dumps(_loads(t.blob, k.readonly)()),
                                     False)
                else:
                    t.value = t.func()
            except Exception as e:
                if k.mode == "copy":
                    try:
                        e = _loads(_dumps(e), False)
                    except Exception:
                        pass
                t.error = e
            finally:
                k.in_worker -= 1
                k.completion.append(t.number)
                if w is not None:
                    w.event("task", "%d %s" % (t.number, "failed"
                                               if t.error else "done"))

        def pump(self):
            """Let the pool make one step of progress."""
            k = self.workers()
            w = World.current
            if w is not None:
                w.point("pool")         # the caller waits here
            if not self.pending:
                return
            if k.mode == "threads":
                from .threads import Scheduler
                group = self.pending[:self.n]
                del self.pending[:self.n]
                s = Scheduler(w, k.gap, k.opcodes)
                done = []
                for t in group:
                    s.spawn("worker%d" % t.number,
                            lambda t=t: (self._run(k, t), done.append(t)))
                s.run()
                w.probe("thread switches inside tasks", s.switches)
                for t in done:
                    t.callback(t)
                return
            t = self.pending.pop(self._pick(k))
            if self.pending and t.number > self.pending[0].number:
                w.probe("tasks completed out of order")
            self._run(k, t)
            t.callback(t)

    return SimBackend


# -- entropy -------------------------------------------------------------------
def sim_urandom(n):
    w = World.current
    if w is None:
        return REAL["urandom"](n)
    w.probe("OS entropy was used")
    return w.entropy.randbytes(n)


# -- cores -----------------------------------------------------------------------
def sim_cpus(*a, **k):
    w = World.current
    if w is None:
        return real_cpus() or 1
    return w.backend.cpus if w.backend is not None else 4


# -- solvers ---------------------------------------------------------------------
def _solver(name, real):
    def call(*a, **k):
        w = World.current
        if w is None:
            return real(*a, **k)
        w.point(name)
        if w.solver is not None and not w.quiet_points:
            r = w.solver(w, name, real, a, k)
        else:
            r = real(*a, **k)
        if isinstance(r, dict):
            w.qp_status.append(r.get("status"))
        return r
    call.__name__ = name
    call.__doc__ = real.__doc__
    REAL[name] = real
    return call


AD3_ENTRY = ("general_graph", "simple_grid", "general_constrained_graph",
             "binary_general_graph")
_installed = False


def install():
    """Put the seams in place (before pystruct is imported)."""
    global _installed
    if _installed:
        return
    _installed = True
    from . import threads
    # third-party modules first, so that they keep their own locks
    import numpy
    import scipy.optimize
    import sklearn.utils
    import sklearn.cluster
    import joblib
    import joblib._parallel_backends
    import joblib.parallel
    import cvxopt
    import cvxopt.solvers
    threads.install_locks()
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.perf_counter = sim_perf
    time.monotonic = sim_mono
    time.sleep = sim_sleep
    REAL["urandom"] = os.urandom
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    B = make_backend()
    for name in list(joblib.parallel.BACKENDS):
        if name != "sequential":
            joblib.parallel.BACKENDS[name] = B
    joblib.parallel.BACKENDS["sim"] = B
    for name in ("loky", "threading", "multiprocessing"):
        joblib.parallel.BACKENDS[name] = B
    for mod in (joblib, joblib.parallel, multiprocessing, os):
        mod.cpu_count = sim_cpus
    for name in ("qp", "lp"):
        setattr(cvxopt.solvers, name,
                _solver(name, getattr(cvxopt.solvers, name)))
    try:
        import ad3
        for name in AD3_ENTRY:
            if hasattr(ad3, name):
                setattr(ad3, name, _solver("ad3." + name,
                                           getattr(ad3, name)))
    except ImportError:
        pass
    cvxopt.solvers.options["show_progress"] = False


def after_import():
    from . import disk
    disk.install()
