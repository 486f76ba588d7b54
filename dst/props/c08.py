"""C08: valid bounds under bad inference, and recovery once it is good."""
import numpy as np

from dst import workloads as W
from dst.common import (Reject, Violation, Workers, deep, draw_workers,
                        finite, guard, need, rel_close, same_data, sub_world)
from dst.core import silence_points
from dst.props.c06 import warm

TIERS = {"quick": {"runs": 5000, "wall": 80, "min": 400},
         "thorough": {"runs": 50000, "wall": 780, "min": 2000}}
RULE = ("a run trains while loss-augmented inference sometimes returns an "
        "arbitrary legal labelling, the ground truth, or a stale answer "
        "(degraded solver); the recorded dual values are compared with the "
        "certified optimum of the fully enumerated QP throughout; then the "
        "fault stops and training continues with a warm start until it has "
        "to be optimal; non-trivial when at least one answer was replaced")
REAL = ["pystruct learners and models (joint features, losses, inference "
        "when not replaced)", "cvxopt QP", "joblib front end"]
STUB = ["answers of the degraded inference calls", "clock",
        "joblib worker pool"]

FAMS = ("tab", "binary", "multi", "multilabel", "chain", "edge", "tree")


class Degraded:
    def __init__(self, w, t, p, rate, kind):
        self.w, self.t, self.p = w, t, p
        self.rate, self.kind = rate, kind
        self.on = True
        self.fired = 0
        self.last = {}

    def answer(self, i, x, y, good):
        t = self.t
        if not t.chance(self.rate, "degrade"):
            return good
        self.fired += 1
        self.w.fault("degraded inference: " + self.kind)
        if self.kind == "truth":
            return y
        if self.kind == "stale":
            key = np.asarray(y).tobytes() + bytes(str(np.shape(x)), "ascii")
            return self.last.setdefault(key, good)
        lab = self.p.labels(x, y)
        return lab[t.draw(len(lab), "label")]

    def __call__(self, world, model, kind, n, x, y, w, call):
        good = call()
        if kind != "lai" or not self.on or world is not self.w:
            return good
        if self.p.batch and np.ndim(y) == 1 and np.ndim(x) == 2:
            out = np.array(good)
            for i in range(len(out)):
                out[i] = self.answer(i, x[i], y[i], out[i])
            return out
        r = self.answer(0, x, y, good)
        return r if isinstance(r, tuple) else \
            (np.array(r) if isinstance(r, np.ndarray) else r)


def run(w):
    t = w.tape
    p = W.make_problem(t, families=FAMS, max_n=5)
    if not p.integral or not p.exact:
        raise Reject("inference is relaxed")
    s = W.make_setup(t, problem=p, learners=("oneslack", "nslack", "fw",
                                             "fwbatch", "subgradient"),
                     max_iter=400)
    cut = s.kind in ("oneslack", "nslack")
    s.cfg.pop("show_loss_every", None)
    if cut:
        s.cfg["tol"] = 1e-3 if s.kind == "oneslack" else -1e9
        if s.cfg["inactive_window"] == 2:
            s.cfg["inactive_window"] = 10
    else:
        s.cfg["max_iter"] = t.choice((12, 3, 1), "max_iter")
        if s.kind == "fw":
            s.cfg["check_dual_every"] = t.choice((1, 2), "dual every")
        if s.kind in ("fw", "fwbatch"):
            # degraded answers can make the gap negative
            s.cfg["tol"] = t.choice((-1e9, 1e-3), "tol")
    s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs") if cut else 1
    k = draw_workers(t)
    model = p.make_model()
    with silence_points():
        model.initialize(p.X, p.Y)
    C = s.cfg["C"]
    lower, upper, _ = W.solve_exact(p, model, C)
    if upper - lower > 1e-4 * max(1, upper):
        raise Reject("the reference QP was not solved well enough")
    rate = t.choice((30, 5, 70, 100), "rate")
    kind = t.choice(("random", "truth", "stale"), "kind")
    w.stats.note = "%s on %s|%s answers, %d%%; %s; %s" % (
        s.kind, p.name, kind, rate, s.describe(), k.describe())
    w.backend = k
    bad = Degraded(w, t, p, rate, kind)
    w.on_infer = bad
    l = s.build()
    data = deep(p.X), deep(p.Y)
    for round_ in range(t.between(1, 2, "degraded rounds")):
        kw = warm(s, l) if round_ and cut else {}
        l.max_iter = t.between(1, 25, "degraded iterations") if cut \
            else s.cfg["max_iter"]
        guard(w, "fit under degraded inference", lambda: s.fit(l, **kw))
        if not cut:
            break
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    need(finite(l.w), "not-finite", "w=%r", l.w)
    if not bad.fired:
        raise Reject("no answer was replaced")
    tol = 1e-3 * max(1.0, upper)
    curve = l.objective_curve_
    if s.kind != "subgradient":
        for i, v in enumerate(curve):
            need(np.isfinite(v) and v <= upper + tol, "not-a-lower-bound",
                 "dual objective %d is %r, the optimum is %r", i, v, upper)
    if cut and s.cfg["inactive_window"] == 0:
        for a, b in zip(curve, curve[1:]):
            need(b >= a - tol, "bound-worsened", "the dual objective fell "
                 "from %r to %r although no constraint was dropped", a, b)
    if s.kind in ("fw", "fwbatch") and s.cfg["line_search"] \
            and (s.kind == "fwbatch" or not s.cfg["do_averaging"]):
        for a, b in zip(curve, curve[1:]):
            need(b >= a - tol, "bound-worsened", "the dual objective fell "
                 "from %r to %r with line search", a, b)
    # -- the fault stops
    bad.on = False
    if not cut:
        guard(w, "fit after the fault", lambda: s.fit(l))
        got = W.enumerate_primal(p, l.model, l.w, C)
        need(got >= lower - tol, "harness", "objective %r below the optimum "
             "%r", got, lower)
        rec = (l.primal_objective_curve_ if s.kind != "subgradient"
               else l.objective_curve_)[-1]
        need(rel_close(rec, got, 1e-6), "wrong-objective",
             "the final objective is recorded as %r, it is %r", rec, got)
        if s.kind != "subgradient":
            with sub_world(w) as r:
                twin = s.build()
                guard(r, "fit", lambda: s.fit(twin))
            need(W.close(l.w, twin.w, 1e-7, 1e-8), "not-recovered",
                 "training after the fault gives w=%r, a fresh learner %r",
                 l.w, twin.w)
        w.stats.nontrivial = True
        return
    before = len(l.objective_curve_)
    l.max_iter = 400
    how = t.choice(("warm", "soft", "refit"), "afterwards")
    if how == "soft" and s.kind == "nslack":
        how = "warm"
    kw = {"warm": warm(s, l), "soft": {"warm_start": "soft"},
          "refit": {}}[how]
    guard(w, "fit after the fault", lambda: s.fit(l, **kw))
    iters = len(l.objective_curve_) - (before if how != "refit" else 0)
    need(iters < 400, "no-progress", "no convergence within 400 iterations "
         "after the fault stopped")
    got = W.enumerate_primal(p, l.model, l.w, C)
    slack = len(p.X) * C * (2e-3 if s.kind == "oneslack" else 2e-4) \
        + 2 * tol
    need(got <= upper + slack, "not-recovered", "with good inference again "
         "(%s) training ends with objective %r, the optimum is %r", how, got,
         upper)
    need(rel_close(l.primal_objective_curve_[-1], got, 1e-5),
         "wrong-objective", "the final objective is recorded as %r, it is %r",
         l.primal_objective_curve_[-1], got)
    need(l.objective_curve_[-1] <= upper + tol, "not-a-lower-bound",
         "the final dual objective is %r, the optimum is %r",
         l.objective_curve_[-1], upper)
    w.stats.nontrivial = True
