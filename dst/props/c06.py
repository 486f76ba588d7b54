"""C06: training resumed after a stop or a crash ends where it should."""
import numpy as np

from dst import workloads as W
from dst.workloads import close
from dst.common import (Reject, Violation, Workers, deep, draw_workers,
                        finite, guard, need, rel_close, same_data, sub_world)
from dst.core import SimCrash, silence_points
from dst.disk import Disk
from dst.latent import make_latent
from pystruct.utils import SaveLogger

TIERS = {"quick": {"runs": 2400, "wall": 80, "min": 400},
         "thorough": {"runs": 50000, "wall": 780, "min": 2000}}
RULE = ("a run stops a training one to four times (Ctrl-C at a seam, process "
        "crash or power loss at a seam followed by reloading the newest "
        "checkpoint, a failing inference, the iteration limit), resumes it "
        "with a warm start each time, and compares the end with the "
        "uninterrupted training (subgradient learners, exactly) or with the "
        "certified optimum of the fully enumerated QP (cutting planes); "
        "non-trivial when at least one stop fired")
REAL = ["pystruct learners, models, inference, SaveLogger", "cvxopt QP/LP",
        "ad3", "joblib front end"]
STUB = ["raw file, rename, fsync (simulated disk)", "clock", "signal "
        "delivery", "process death", "joblib worker pool"]

EXACT = ("tab", "binary", "multi", "multilabel", "chain", "tree", "edge")


def run(w):
    t = w.tape
    what = t.choice(("cutting", "subgradient"), "learner kind")
    {"cutting": cutting, "subgradient": subgradient}[what](w, t)


class Stopper:
    """Raises at the n-th seam."""

    def __init__(self, w, k):
        self.w, self.k = w, k
        self.left, self.exc, self.fired = None, None, 0
        w.hooks.append(self.hook)

    def arm(self, n, exc, what):
        self.left, self.exc, self.what = n, exc, what

    def disarm(self):
        self.left = None

    def hook(self, world, kind, detail):
        if self.left is None or self.k.in_worker:
            return
        self.left -= 1
        if self.left < 0:
            self.left = None
            self.fired += 1
            world.fault(self.what, kind)
            e = self.exc
            if e is SimCrash:
                if world.disk is not None:
                    world.disk.dead = True
                raise SimCrash("at " + kind)
            raise e


class Lost(Exception):
    """An inference call failed."""


# -- subgradient: the same numbers ---------------------------------------------
class Counting(SaveLogger):
    """Marks the learner with the number of epochs it has behind it."""
    base = target = 0

    def __call__(self, learner, iteration=0):
        if iteration != 'final':
            learner.sim_epochs = self.base + iteration + 1
            learner.sim_final = False
        else:
            learner.sim_final = True
            learner.sim_over = getattr(learner, "sim_epochs", 0) < self.target
        SaveLogger.__call__(self, learner, iteration)


def subgradient(w, t):
    """Epochs done before the last checkpoint + epochs after the reload = the
    uninterrupted training."""
    if t.chance(30, "latent"):
        s = make_latent(t, learners=("latent_subgradient",))
    else:
        s = W.make_setup(t, learners=("subgradient",))
    s.cfg["momentum"], s.cfg["averaging"] = 0.0, None
    s.cfg.pop("show_loss_every", None)
    s.cfg["max_iter"] = epochs = t.between(2, 8, "epochs")
    s.cfg["n_jobs"] = jobs = t.choice((1, 2), "n_jobs")
    if jobs != 1 and s.kind == "subgradient":
        s.cfg["batch_size"] = None
    k = draw_workers(t)
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        twin = s.build()
        guard(r, "fit", lambda: s.fit(twin))
        seams = r.steps
    d = w.disk = Disk(w)
    w.backend = k
    every = t.choice((1, 2), "save every")
    log = Counting(d.path("m.pickle"), every)
    l = s.build(logger=log)
    stop = Stopper(w, k)
    n_stops = t.between(1, 3, "stops")
    w.stats.note = "%s on %s|%d stops, save_every=%d; %s; %s" % (
        s.kind, s.problem.name, n_stops, every, s.describe(), k.describe())
    for i in range(n_stops + 1):
        done = getattr(l, "sim_epochs", 0)
        warm = done > 0
        log.base, log.target = done, epochs
        if getattr(l, "sim_over", False) or done >= epochs:
            break
        if warm and getattr(l, "sim_final", False):
            l.objective_curve_.pop()        # the final objective of that fit
        how = "none" if i == n_stops else t.choice(
            ("crash", "power", "limit"), "stop")
        if how == "limit":
            log.target = done + t.between(1, epochs - done, "epochs now")
            w.fault("stopped at the iteration limit")
            stop.fired += 1
        elif how != "none":
            stop.arm(t.draw(seams, "crash at"), SimCrash, "process crash")
        l.max_iter = log.target - done
        try:
            guard(w, "fit", lambda: s.fit(l, warm_start=warm))
        except SimCrash:
            if how == "power":
                d.power_loss(t)
            d.restart()
            try:
                l = SaveLogger(d.path("m.pickle")).load()
                l.logger = log
            except OSError:                 # nothing was saved yet
                l = s.build(logger=log)
        stop.disarm()
    if not stop.fired:
        raise Reject("no stop fired")
    need(close(l.w, twin.w, rtol=1e-8, atol=1e-10), "resume-differs",
         "resumed training ends at w=%r, uninterrupted training at %r",
         l.w, twin.w)
    a, b = l.objective_curve_, twin.objective_curve_
    if not getattr(l, "sim_final", False):
        b = b[:-1]                          # it died in the final pass
    need(close(a, b, rtol=1e-7, atol=1e-9), "resume-differs",
         "resumed training recorded %r, uninterrupted training %r", a, b)
    w.stats.nontrivial = True


# -- cutting planes: the same optimum ---------------------------------------------
def cutting(w, t):
    p = W.make_problem(t, families=EXACT, max_n=5)
    if not p.exact or not p.integral or p.labels is None:
        raise Reject("inference is not exact")
    s = W.make_setup(t, problem=p, learners=("nslack", "oneslack"),
                     max_iter=400)
    s.cfg["tol"] = 1e-3
    if s.kind == "nslack":
        s.cfg["tol"] = -1e9      # stop only when no constraint is violated
    if s.cfg["inactive_window"] == 2:
        s.cfg["inactive_window"] = 10
    s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    k = draw_workers(t)
    model = p.make_model()
    with silence_points():
        model.initialize(p.X, p.Y)
    lower, upper, _ = W.solve_exact(p, model, s.cfg["C"])
    if upper - lower > 1e-4 * max(1, upper):
        raise Reject("the reference QP was not solved well enough")
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        twin = s.build()
        guard(r, "fit", lambda: s.fit(twin))
        seams = r.steps
        solo = len(twin.objective_curve_)
    d = w.disk = Disk(w)
    log = SaveLogger(d.path("m.pickle"), t.choice((1, 2, 5), "save every"))
    l = s.build(logger=log)
    stop = Stopper(w, k)
    w.backend = k
    n_stops = t.between(1, 4, "stops")
    w.stats.note = "%s on %s|%d stops; %s; %s" % (
        s.kind, p.name, n_stops, s.describe(), k.describe())
    data = deep(p.X), deep(p.Y)
    started = False
    best = 0.0
    for i in range(n_stops):
        how = t.choice(("interrupt", "crash", "power", "failure", "limit"),
                       "stop")
        l.max_iter = 400
        exc = {"interrupt": KeyboardInterrupt(), "failure": Lost("4711")}.get(
            how, SimCrash)
        if how == "limit":
            l.max_iter = t.between(1, 6, "iterations now")
            stop.fired += 1
            w.fault("stopped at the iteration limit")
        else:
            stop.arm(t.draw(seams, "stop at"), exc, {
                "interrupt": "KeyboardInterrupt", "failure":
                "inference failure"}.get(how, "process crash"))
        kw = warm(s, l) if started else {}
        before = len(l.objective_curve_) if started else 0
        try:
            guard(w, "fit", lambda: s.fit(l, **kw), KeyboardInterrupt, Lost)
            started = True
        except (KeyboardInterrupt, Lost):
            started = started or hasattr(l, "constraints_")
            if s.kind == "nslack":
                # the constraints are published at the end of fit only
                started = hasattr(l, "constraints_")
        except SimCrash:
            if how == "power":
                d.power_loss(t)
            d.restart()
            try:
                l = SaveLogger(d.path("m.pickle")).load()
                l.logger = log
                started = hasattr(l, "constraints_")
            except OSError:
                l = s.build(logger=log)
                started = False
            kw, best = {}, 0.0
        stop.disarm()
        if kw:
            goes_on(l, before, best)
        if how in ("crash", "power"):
            best = l.objective_curve_[-1] if started else 0.0
        if started and s.cfg["inactive_window"] == 0:
            # no constraint is ever dropped: the bound only improves
            # (published values only; OneSlack subtracts nothing)
            cur = [x for x in l.objective_curve_]
            if cur:
                need(cur[-1] >= best - 1e-3 * max(1, abs(best)),
                     "progress-lost", "the dual objective fell from %r to %r "
                     "over a stop (%s)", best, cur[-1], how)
                best = max(best, cur[-1])
        elif started and l.objective_curve_ and how not in ("crash", "power"):
            best = max(best, l.objective_curve_[-1])
    if not stop.fired:
        raise Reject("no stop fired")
    before = len(getattr(l, "objective_curve_", [])) if started else 0
    kw = warm(s, l) if started else {}
    if kw and s.kind == "nslack" and t.draw(3, "another learner") == 2:
        # the known constraints are all a new learner needs
        w.probe("another learner continues from the constraints")
        l, before = s.build(logger=log), 0
    l.max_iter = 400
    guard(w, "resumed fit", lambda: s.fit(l, **kw))
    if kw:
        goes_on(l, before, best)
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    need(finite(l.w), "not-finite", "w=%r", l.w)
    if len(l.objective_curve_) - before >= 400:
        raise Violation("no-progress", "no convergence in 400 iterations "
                        "after resuming, %d without stops" % solo)
    n, C = len(p.X), s.cfg["C"]
    got = W.enumerate_primal(p, l.model, l.w, C)
    slack = n * C * (2e-3 if s.kind == "oneslack" else 2e-4) \
        + 2e-3 * max(1, upper)
    need(got <= upper + slack, "not-optimal", "resumed training ends with "
         "objective %r, the optimum is %r (allowed difference %g)", got,
         upper, slack)
    need(rel_close(l.primal_objective_curve_[-1], got, 1e-5),
         "wrong-objective", "the final objective is recorded as %r, it is %r",
         l.primal_objective_curve_[-1], got)
    need(l.objective_curve_[-1] <= upper + 1e-3 * max(1, upper),
         "wrong-objective", "the dual objective %r exceeds the optimum %r",
         l.objective_curve_[-1], upper)
    w.stats.nontrivial = True


def goes_on(l, before, best):
    """A resumed training starts where the last one ended: constraints that
    are dropped meanwhile do not matter for the dual."""
    new = l.objective_curve_[before:]
    if new:
        need(new[0] >= best - 1e-2 * max(1, abs(best)), "progress-lost",
             "the dual objective was %r before the stop, the resumed "
             "training starts with %r", best, new[0])


def warm(s, l):
    if s.kind == "nslack":
        return {"constraints": l.constraints_}
    return {"warm_start": True}
