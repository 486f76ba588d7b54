"""C17: what a training records about itself is true."""
import numpy as np

from dst import workloads as W
from dst.common import (Reject, deep, draw_workers, finite, guard, need,
                        rel_close, same_data)
from dst.core import silence_points
from dst.latent import make_latent
from dst.props.c06 import Stopper, warm

TIERS = {"quick": {"runs": 4000, "wall": 80, "min": 400},
         "thorough": {"runs": 60000, "wall": 780, "min": 2000}}
RULE = ("a run trains in one to three segments (stopped by Ctrl-C at a seam or "
        "by the iteration limit, continued with a warm start) with drawn "
        "worker pools and QPs that fail once; the logger compares every "
        "entry of every recorded curve with the value computed from the "
        "definition and the weights the learner had at that moment; "
        "non-trivial when at least two entries were compared")
REAL = ["pystruct learners, models, inference", "cvxopt QP/LP", "ad3",
        "joblib front end"]
STUB = ["joblib worker pool", "clock", "signal delivery", "status of failing "
        "QP attempts"]


def loss_of(p, model, w):
    """The normalised training loss of the predictions with w."""
    got = [model.inference(x, w) for x in p.X]
    if hasattr(model, "label_from_latent"):
        got = [model.label_from_latent(h) for h in got]
    total = sum(float(base_loss(model, y, z)) for y, z in zip(p.Y, got))
    return total / sum(float(model.max_loss(y)) for y in p.Y)


def base_loss(model, y, z):
    return getattr(model, "base_loss", model.loss)(y, z)


class Diary:
    """A logger that checks the entries as they are made."""

    def __init__(self, w, s):
        self.w, self.s = w, s
        self.compared = 0
        self.primals = []
        self.seen = []              # weights of inference calls (perceptron)

    def __getstate__(self):
        return {}

    def __deepcopy__(self, memo):
        return self

    def start(self, w0):
        self.before = None if w0 is None else np.array(w0)
        self.fresh()
        self.entries = None

    def fresh(self):
        self.first = None
        self.calls = 0
        self.asked = []

    def on_infer(self, world, model, kind, n, x, y, w, call):
        if world is self.w:
            if kind == "lai":
                if self.first is None:
                    self.first = np.array(w)
                self.calls += n
                if self.s.kind in ("latent_subgradient", "nslack"):
                    self.asked.append((x, y, np.array(w)))
            elif kind == "infer" and self.s.kind == "perceptron":
                self.seen.append(np.array(w))
        return call()

    def same(self, what, got, want, it):
        self.compared += 1
        # ad3's relaxed solutions are accurate to a few digits only
        tol = 1e-6 if self.s.problem.integral else 1e-3
        need(rel_close(got, want, tol), "wrong-record",
             "iteration %s: %s is recorded as %r, it was %r", it, what, got,
             want)

    def __call__(self, l, it):
        if it == 'final':
            return
        with silence_points(self.w):
            self.check(l, it)
        self.before = np.array(l.w)
        self.fresh()

    def check(self, l, it):
        s, kind, p = self.s, self.s.kind, self.s.problem
        C = s.cfg["C"]
        sums = sum(max(0.0, W.slack_of(l.model, x, y, v))
                   for x, y, v in self.asked)
        obj, prim = l.objective_curve_, getattr(
            l, "primal_objective_curve_", None)
        # 1-slack: inexact inference may leave a sample's slack negative
        true = lambda v: W.primal(p, l.model, v, C, "one_slack"
                                  if kind == "oneslack" else "n_slack")
        n = len(obj)
        grown = self.entries is None or n > self.entries
        self.entries = n
        if prim is not None:
            need(len(prim) == n, "wrong-record", "%d dual and %d primal "
                 "objectives after iteration %s", n, len(prim), it)
        if kind == "nslack":
            # the slacks found during the pass
            self.same("the primal objective", prim[-1], C * sums
                      + np.dot(l.w, l.w) / 2., it)
        elif kind == "oneslack":
            cached = l.cached_constraint_
            need(len(cached) == n, "wrong-record", "%d objectives, %d flags",
                 n, len(cached))
            need(bool(cached[-1]) == (self.calls == 0), "wrong-record",
                 "iteration %s made %d inference calls, cached_constraint_ "
                 "says %r", it, self.calls, cached[-1])
            self.primals.append(true(self.before))
            if not cached[-1]:
                self.same("the primal objective", prim[-1], self.primals[-1],
                          it)
            elif p.exact and p.integral:
                need(prim[-1] <= self.primals[-1] * (1 + 1e-6) + 1e-6,
                     "wrong-record", "iteration %s: the primal objective of "
                     "a cached constraint is %r, that of all is %r", it,
                     prim[-1], self.primals[-1])
        elif kind == "fwbatch":
            self.primals.append(true(self.first))
            self.same("the primal objective", prim[-1], self.primals[-1], it)
        elif kind == "fw":
            if grown and n:
                self.primals.append(true(l.w))
                self.same("the primal objective", prim[-1],
                          self.primals[-1], it)
        elif kind == "subgradient":
            self.same("the objective", obj[-1], true(l.w), it)
        else:
            self.same("the objective", obj[-1], C * sums
                      + np.dot(l.w, l.w) / 2., it)
        every = s.cfg.get("show_loss_every", 0)
        if every and it % every == 0 and kind not in ("fw", "fwbatch"):
            at = self.before if kind == "oneslack" else l.w
            self.same("the training loss", l.loss_curve_[-1],
                      loss_of(p, l.model, at), it)


class Flaky:
    """Some QPs need the second attempt."""

    def __init__(self, w, t):
        self.w, self.t = w, t
        self.failed = False

    def __call__(self, w, name, real, a, k):
        if name == "qp" and w is self.w and not self.failed \
                and self.t.chance(8, "QP fails once"):
            self.failed = True
            w.fault("QP attempt fails")
            return {"status": "unknown", "x": None}
        self.failed = False
        return real(*a, **k)


def setup(t):
    if t.chance(15, "latent"):
        s = make_latent(t, learners=("latent_subgradient",))
    else:
        s = W.make_setup(t, max_n=5)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 15)
        W.maybe_negative(t, s)
    if s.kind != "perceptron" and t.draw(2, "loss curve"):
        s.cfg["show_loss_every"] = t.choice((1, 2), "loss every")
    jobs = t.choice((1, 2, 3), "n_jobs")
    if s.kind in ("fw", "fwbatch"):
        jobs = 1
    if s.kind == "subgradient" and jobs != 1:
        s.cfg["batch_size"] = None
    s.cfg["n_jobs"] = jobs
    return s


def run(w):
    t = w.tape
    s = setup(t)
    p = s.problem
    k = draw_workers(t)
    w.backend = k
    segments = 1 if s.kind in ("fw", "fwbatch", "perceptron") \
        else t.between(1, 3, "segments")
    w.stats.note = "%s on %s|%d segments; %s; %s" % (
        s.kind, p.name, segments, s.describe(), k.describe())
    if t.draw(2, "QPs fail"):
        w.solver = Flaky(w, t)
    d = Diary(w, s)
    w.on_infer = d.on_infer
    l = s.build() if s.kind == "perceptron" else s.build(logger=d)
    stop = Stopper(w, k)
    data = deep(p.X), deep(p.Y)
    started = False
    for i in range(segments):
        kw = {}
        if started and s.kind in ("nslack", "oneslack"):
            kw = warm(s, l)
            if s.kind == "oneslack" and t.chance(25, "soft"):
                kw = {"warm_start": "soft"}
        elif started:
            kw = {"warm_start": True}
        fresh = kw.get("warm_start", True) == "soft" or not kw
        d.start(np.zeros(1) if fresh else l.w)
        if s.kind == "oneslack" and fresh:
            with silence_points():
                l.model.initialize(p.X, p.Y)
            d.before = np.zeros(l.model.size_joint_feature)
        if t.draw(2, "interrupt"):
            stop.arm(t.draw(60 + 20 * len(p.X), "at"), KeyboardInterrupt(),
                     "KeyboardInterrupt")
        else:
            l.max_iter = t.between(1, s.cfg["max_iter"], "iterations now")
        if not kw:
            d.primals = []
        d.seen = []
        try:
            guard(w, "fit", lambda: s.fit(l, **kw), KeyboardInterrupt)
        except KeyboardInterrupt:
            raise Reject("interrupted outside the training loop")
        stop.disarm()
        started = True
        with silence_points():
            after(w, s, l, d)
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    w.stats.nontrivial = d.compared >= 2
    w.probe("entries compared", d.compared)


def after(w, s, l, d):
    p, kind = s.problem, s.kind
    if kind == "perceptron":
        return perceptron(s, l, d)
    obj = l.objective_curve_
    prim = getattr(l, "primal_objective_curve_", None)
    if kind == "latent_subgradient":
        return
    last = W.primal(p, l.model, l.w, s.cfg["C"])
    d.same("the final objective", (obj if prim is None else prim)[-1], last,
           "final")
    if prim is None:
        return
    need(len(prim) == len(obj), "wrong-record", "%d dual and %d primal "
         "objectives", len(obj), len(prim))
    if kind == "oneslack":
        need(len(l.cached_constraint_) == len(obj), "wrong-record",
             "%d objectives, %d flags", len(obj), len(l.cached_constraint_))
    if p.exact and p.integral and "negativity_constraint" not in s.cfg:
        low = min(d.primals + [last])
        need(finite(obj) and max(obj) <= low + 2e-3 * max(1, low),
             "wrong-record", "a dual objective of %r was recorded, but the "
             "primal objective was %r at some point", max(obj), low)


def perceptron(s, l, d):
    """loss_curve_ is the loss of the predictions made in each pass."""
    p, n = s.problem, len(s.problem.X)
    model = l.model
    total = sum(float(model.max_loss(y)) for y in p.Y)
    for i, got in enumerate(l.loss_curve_):
        if s.cfg.get("batch"):
            ws = [d.seen[i * n]] * n
        else:
            ws = d.seen[i * n:(i + 1) * n]
        loss = sum(float(model.loss(y, model.inference(x, v)))
                   for x, y, v in zip(p.X, p.Y, ws))
        d.same("the loss", got, loss / total, i)
