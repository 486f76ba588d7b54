"""C02: a failing inference call, solver, logger or worker surfaces."""
import numpy as np

from dst import workloads as W
from dst.workloads import close
from dst.common import (Injected, Violation, WorkerDied, Workers, deep,
                        draw_workers, finite, guard, need, same_data,
                        sub_world)
from dst.core import Reject, SimCrash, StepBudget, silence_points
from dst.latent import make_latent

TIERS = {"quick": {"runs": 5000, "wall": 80, "min": 500},
         "thorough": {"runs": 80000, "wall": 780, "min": 2000}}
RULE = ("a run trains once without faults to count the calls, then makes one "
        "call fail (model inference, a worker task, the death of a worker, "
        "the QP solver or the logger; one of twelve exception types) during "
        "fit, predict or score, sequentially or in a simulated pool; "
        "non-trivial when the fault fired and the recovery was checked")
REAL = ["pystruct learners, models, inference, utils", "joblib.Parallel "
        "front end (dispatch, retrieval, abort)", "cvxopt QP/LP", "ad3"]
STUB = ["joblib worker pool (simulated backend)", "clock"]

ERRORS = (Injected, ValueError, RuntimeError, KeyError, IndexError, TypeError,
          AttributeError, ZeroDivisionError, MemoryError, OSError,
          StopIteration, ImportError, AssertionError, FloatingPointError)


class FaultLogger:
    def __init__(self):
        self.calls = 0
        self.at = None
        self.exc = None
        self.w = None

    def __call__(self, learner, iteration=0):
        self.calls += 1
        if self.calls == self.at:
            self.w.fault("logger raises", type(self.exc).__name__)
            raise self.exc


def run(w):
    t = w.tape
    latent = t.chance(30, "latent")
    if latent:
        s = make_latent(t)
    else:
        s = W.make_setup(t)
        W.maybe_negative(t, s)
        if s.kind in ("nslack", "oneslack", "fw", "fwbatch"):
            s.cfg["max_iter"] = min(s.cfg["max_iter"], 12)
        if s.kind == "subgradient" and t.draw(2, "shuffle"):
            s.cfg["shuffle"] = True
    jobs = t.choice((1, 2, 3, -1), "n_jobs")
    if s.kind in ("fw", "fwbatch"):
        jobs = 1
    if s.kind == "subgradient" and jobs != 1:
        s.cfg["batch_size"] = None
    s.cfg["n_jobs"] = jobs
    op = t.choice(("fit", "predict", "score"), "operation")
    site = t.choice(("inference", "task", "solver", "logger"), "fault site")
    if op != "fit" and site == "logger":
        site = "inference"
    if jobs == 1 and site == "task":
        site = "inference"
    k = draw_workers(t)
    exc = t.choice(ERRORS, "exception")("injected fault 4711")
    if site == "task":
        exc = WorkerDied("a worker process was terminated")
    w.stats.note = "%s %s on %s|%s fails during %s of %s; n_jobs=%d; %s" % (
        op, s.kind, s.problem.name, site, op, s.describe(), jobs,
        k.describe())

    def do(world, l):
        if op == "fit":
            return s.fit(l)
        if op == "predict":
            return l.predict(s.problem.X)
        return l.score(s.problem.X, s.problem.Y)

    def prepared():
        log = FaultLogger()
        l = s.build(logger=log)
        if op != "fit":
            with silence_points():
                s.fit(l)
            if s.kind == "latent_subgradient" and s.problem.name == "ltab":
                pass
        return l, log

    # -- how many chances are there? (a twin without faults)
    counts = {"inference": 0, "solver": 0}
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        np.random.seed(5)
        ref, log = prepared()
        log.calls = 0

        def count(world, kind, detail):
            if kind in ("infer", "lai", "latent"):
                counts["inference"] += 1
            elif kind in ("qp", "lp") or kind.startswith("ad3"):
                counts["solver"] += 1
        r.hooks.append(count)
        want = guard(r, op + " without faults", lambda: do(r, ref))
        counts["task"] = r.backend.tasks
        counts["logger"] = log.calls
    if counts[site] == 0:
        raise Reject("no %s call" % site)
    at = 1 + t.draw(counts[site], "fault at")
    if site == "solver" and isinstance(exc, (ValueError, TypeError,
                                             ArithmeticError)):
        exc = MemoryError("injected fault 4711")   # ValueError has a meaning
    # -- the same with the fault
    w.backend = k
    np.random.seed(5)
    l, log = prepared()
    before = (deep(s.problem.X), deep(s.problem.Y))
    fired = []
    seen = {"n": 0}

    def strike(world, kind, detail):
        hit = (kind in ("infer", "lai", "latent") if site == "inference" else
               kind in ("qp", "lp") or kind.startswith("ad3"))
        if not hit:
            return
        seen["n"] += 1
        if seen["n"] == at and not fired:
            fired.append(kind)
            world.fault("%s raises" % site, type(exc).__name__)
            raise exc

    if site in ("inference", "solver"):
        w.hooks.append(strike)
    elif site == "task":
        def kill(n):
            if n == at:
                fired.append("task")
                w.fault("worker dies", n)
                return exc
        k.kill = kill
    else:
        log.at, log.exc, log.w, log.calls = at, exc, w, 0
    got = result = None
    try:
        result = do(w, l)
    except (Violation, SimCrash, StepBudget, Reject):
        raise
    except Exception as e:
        got = e
    if site == "logger" and log.calls >= at:
        fired.append("logger")
    if site in ("inference", "solver"):
        w.hooks.remove(strike)
    k.kill = None
    log.at = None
    if not fired:
        raise Reject("the fault was not reached")
    need(got is not None, "failure-swallowed",
         "%s returned %r although %s call %d of %d raised %s", op,
         type(result).__name__, site, at, counts[site], type(exc).__name__)
    need(type(got) is type(exc) and "4711" in str(got)
         or type(got) is WorkerDied or
         (isinstance(got, RuntimeError) and isinstance(exc, StopIteration)),
         "failure-disguised", "%s raised %s(%s) instead of the original %s",
         op, type(got).__name__, str(got)[:100], type(exc).__name__)
    recover(w, s, l, op, before, k, want, ref, latent)
    w.stats.nontrivial = True


def recover(w, s, l, op, before, k, want, ref, latent):
    """The learner and the data survive: the same operation now works and
    gives what it would have given."""
    need(same_data(before[0], s.problem.X) and same_data(before[1],
                                                         s.problem.Y),
         "data-modified", "the training data changed")
    if getattr(l, "w", None) is not None:
        need(finite(l.w), "not-finite", "w is not finite after the failure")
    if op == "predict":
        got = guard(w, "predict after the failure",
                    lambda: l.predict(s.problem.X))
        need(len(got) == len(want) and all(
            W.same_labels(a, b) for a, b in zip(got, want)),
            "wrong-after-failure", "predict gives %r, not %r", got, want)
        return
    if op == "score":
        got = guard(w, "score after the failure",
                    lambda: l.score(s.problem.X, s.problem.Y))
        need(abs(got - want) < 1e-9, "wrong-after-failure",
             "score gives %r, not %r", got, want)
        return
    if s.kind in ("subgradient", "latent_subgradient") or (
            latent and "Subgradient" in s.base.__name__):
        # these continue from the current w by design; they must still train
        guard(w, "fit after the failure", lambda: s.fit(l))
        need(finite(l.w), "not-finite", "w is not finite after refitting")
        return
    np.random.seed(5)
    guard(w, "fit after the failure", lambda: s.fit(l))
    need(close(l.w, ref.w, rtol=1e-6, atol=1e-6), "wrong-after-failure",
         "refitting after the failure gives w=%r, a fresh learner %r",
         l.w, ref.w)
    if not latent:
        a, b = W.curves(l), W.curves(ref)
        need(sorted(a) == sorted(b) and all(
            close(a[x], b[x], rtol=1e-6, atol=1e-6) for x in a),
            "wrong-after-failure", "the recorded curves are %r, a fresh "
            "learner records %r", a, b)
