"""C16: training always stops."""
import numpy as np

from dst import workloads as W
from dst.common import (Reject, Violation, deep, draw_workers, finite, guard,
                        need, same_data)
from dst.core import silence_points
from dst.latent import make_latent
from dst.props.c14 import OnceFailing

TIERS = {"quick": {"runs": 4000, "wall": 80, "min": 500},
         "thorough": {"runs": 80000, "wall": 780, "min": 2500}}
RULE = ("a run trains while inference returns arbitrary legal labellings, "
        "the ground truth, stale or correct answers, QPs fail once, the "
        "clock jumps and workers finish in any order, and counts the "
        "inference calls; from a drawn call on every answer is the ground "
        "truth, and training has to stop soon after; non-trivial when at "
        "least one answer was replaced")
REAL = ["pystruct learners and models", "cvxopt QP", "joblib front end"]
STUB = ["answers of the disturbed inference calls", "failing QP attempts",
        "clock", "joblib worker pool"]


class Answers:
    """Arbitrary answers first, then the ground truth for ever."""

    def __init__(self, w, t, p, kind, rate, until, latent):
        self.w, self.t, self.p = w, t, p
        self.kind, self.rate, self.until = kind, rate, until
        self.latent = latent
        self.count = {"lai": 0, "infer": 0, "latent": 0}
        self.after = 0
        self.fired = 0
        self.stale = {}
        self.decides = "lai"
        self.truth = {}
        if not latent:
            with silence_points():
                for x, y in zip(p.X, p.Y):
                    self.truth[self.key(x)] = y

    @staticmethod
    def key(x):
        import pickle
        return pickle.dumps(x if not isinstance(x, np.ndarray)
                            else np.ascontiguousarray(x))

    def answer(self, x, y, good):
        t = self.t
        if self.count[self.decides] > self.until:
            self.after += 1
            self.fired += 1
            return y
        if not t.chance(self.rate, "disturb"):
            return good
        how = self.kind if self.kind != "mixed" else t.choice(
            ("random", "truth", "stale"), "answer")
        self.fired += 1
        self.w.fault("inference answers " + how)
        if how == "truth":
            return y
        if how == "stale":
            return self.stale.setdefault(self.key(x), good)
        if self.p.labels is None:
            return y
        lab = self.p.labels(x, y)
        return lab[t.draw(len(lab), "label")]

    def __call__(self, world, model, kind, n, x, y, w, call):
        if world is not self.w or kind not in self.count:
            return call()
        batch = not self.latent and self.p.batch and np.ndim(x) == 2
        if kind != self.decides:
            self.count[kind] += n
            return call()
        good = call()
        if batch:
            out = np.array(good)
            for i in range(len(out)):
                self.count[kind] += 1
                yt = y[i] if y is not None else self.truth[self.key(x[i])]
                out[i] = self.answer(x[i], yt, out[i])
            return out
        self.count[kind] += 1
        yt = y if y is not None else self.truth[self.key(x)]
        r = self.answer(x, yt, good)
        return np.array(r) if isinstance(r, np.ndarray) else deep(r)


def run(w):
    t = w.tape
    latent = t.chance(20, "latent")
    if latent:
        s = make_latent(t, max_n=4)
    else:
        s = W.make_setup(t, max_n=5)
    p = s.problem
    n = len(p.X)
    top = s.cfg["max_iter"] = t.choice((3, 0, 1, 2, 6, 25), "max_iter")
    jobs = 1
    if s.kind not in ("fw", "fwbatch"):
        jobs = s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
        if jobs != 1 and "batch_size" in s.cfg and s.kind == "subgradient":
            s.cfg["batch_size"] = None
    base = s.base if s.kind == "latent_ssvm" else None
    cutting = s.kind in ("nslack", "oneslack") \
        or base in (W.NSlackSSVM, W.OneSlackSSVM)
    if cutting:
        s.cfg["tol"] = t.choice((1e-3, 1e-9, -1e9, 0.1), "tol")
        if s.cfg["tol"] < 0 and (s.kind == "oneslack"
                                 or base is W.OneSlackSSVM):
            s.cfg["tol"] = 1e-9
    switch = cutting and not latent and p.name in ("chain", "tree") \
        and t.chance(30, "switch_to")
    if switch:
        s.cfg["switch_to"] = "ad3"
    if s.kind in ("fw", "fwbatch"):
        s.cfg["tol"] = t.choice((1e-3, -1e9), "tol")
    k = draw_workers(t)
    k.gap = 0
    w.backend = k
    kind = t.choice(("random", "mixed", "stale", "truth"), "answers")
    rate = t.choice((100, 30, 70), "rate")
    ans = Answers(w, t, p, kind, rate, t.draw(6 * n + 1, "calls until the "
                                              "fault ends"), latent)
    if s.kind == "perceptron":
        ans.decides = "infer"
    if t.chance(20, "healthy until the end"):
        ans.until = 10 ** 9
    w.on_infer = ans
    w.solver = OnceFailing(w, t, 15) if cutting and t.chance(
        30, "QP failures") else None
    if t.chance(30, "clock"):
        jump = t.choice((-3600., 1e6, 0.), "clock jump")
        w.latency = lambda kind: jump if kind == "lai" else 0.
        w.fault("clock jumps")
    w.stats.note = "%s on %s|%s answers, %d%%, %d calls; %s; %s" % (
        s.kind, p.name, kind, rate, ans.until, s.describe(), k.describe())
    logged = []
    log = lambda who, it: logged.append(it)
    data = deep(p.X), deep(p.Y)
    if s.kind == "latent_ssvm":
        l = s.build(outer_logger=log)
    elif s.kind == "perceptron":
        l = s.build()
    else:
        l = s.build(logger=log)
    guard(w, "fit", lambda: s.fit(l))
    w.on_infer = w.solver = None
    w.latency = None
    need(same_data(data, (p.X, p.Y)), "data-modified", "the training data "
         "changed")
    need(finite(l.w), "not-finite", "w=%r", l.w)
    passes = ans.count[ans.decides] / float(n)
    rounds = s.latent_iter if s.kind == "latent_ssvm" else 1
    twice = s.kind in ("fw", "fwbatch", "subgradient") \
        or base is W.SubgradientSSVM    # the objective takes a pass, too
    per = 2 * top + 1 if twice else \
        top if s.kind == "perceptron" else top + 1
    need(passes <= per * rounds, "too-many-passes", "%s passes over the data "
         "with max_iter=%d", passes, top)
    if s.kind != "perceptron":
        bound = top + 1 if s.kind != "latent_ssvm" else s.latent_iter
        need(len(logged) <= bound, "too-many-passes", "%d logger calls",
             len(logged))
    if s.kind not in ("perceptron", "latent_ssvm"):
        need(logged[-1:] == ["final"] and logged.count("final") == 1,
             "no-final-call", "the logger was called for %s", logged)
    if switch and len(l.objective_curve_) - 1 < top:
        # it had no more constraints to add: then switch_to has its turn
        need(l.model.inference_method == "ad3", "no-switch", "training "
             "stopped with %r inference although switch_to='ad3'",
             l.model.inference_method)
        w.probe("switched inference methods")
    # -- the ground truth for a whole pass: nothing left to do
    if s.kind in ("fw", "fwbatch"):
        limit = None
    elif s.cfg.get("batch_size") not in (None, 1) and not cutting:
        limit = None            # mini-batches do not look for this
    elif not s.cfg.get("break_on_no_constraints", True):
        limit = None            # asked to go on
    elif s.kind == "perceptron":
        limit = 2 * n
    elif s.kind == "latent_ssvm":
        limit = (4 if twice else 3) * n + 2 * n * (rounds - 1)
    else:
        limit = (4 if twice or switch else 3) * n
    if limit is not None:
        need(ans.after <= limit, "no-stop", "%d answers without any violated "
             "constraint for %d samples, and training went on", ans.after, n)
        if ans.after:
            w.probe("quiet passes counted")
    w.stats.nontrivial = ans.fired > 0
