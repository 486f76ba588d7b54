"""C07: QP solver failures are retried once, then reported, never used."""
import numpy as np
import cvxopt

from dst import workloads as W
from dst.workloads import close
from dst.common import (Reject, Violation, Workers, deep, draw_workers,
                        finite, guard, need, rel_close, same_data, sub_world)
from dst.core import silence_points
from dst.latent import make_latent
from dst.props.c06 import EXACT, warm

TIERS = {"quick": {"runs": 2400, "wall": 80, "min": 400},
         "thorough": {"runs": 50000, "wall": 780, "min": 2000}}
RULE = ("a run trains a cutting-plane learner while chosen QPs fail on their "
        "first or on both attempts (status 'unknown' or another non-optimal "
        "status with a garbage or nearly right solution, or ValueError, as "
        "cvxopt does); once-failing training must reach the certified "
        "optimum through one regularised retry per failure; twice-failing "
        "training must raise ValueError, keep the last good w, and work "
        "again afterwards; non-trivial when at least one QP failed")
REAL = ["pystruct learners, models, inference", "cvxopt QP for every attempt "
        "that is not made to fail", "joblib front end"]
STUB = ["outcome of the failing QP attempts", "clock",
        "joblib worker pool"]

STATUS = ("unknown", "primal infeasible", "dual infeasible", "ValueError")


class Solver:
    """Decides the outcome of every QP attempt."""

    def __init__(self, w, t, plan, bad):
        self.w, self.t, self.plan, self.bad = w, t, plan, bad
        self.first = None      # arguments of the attempt that just failed
        self.count = 0         # different QPs so far
        self.fired = 0
        self.retries = 0
        self.gave_up = False
        self.on = True
        self.learner = None
        self.w_before = None

    def __call__(self, w, name, real, a, k):
        if name != "qp" or not self.on:
            return real(*a, **k)
        if self.first is not None:
            self.check_retry(a)
            self.first = None
            self.retries += 1
            if self.plan.get(self.count) == 2:
                self.gave_up = True
                return self.fail(real, a, k)
            return real(*a, **k)
        self.count += 1
        if self.plan.get(self.count):
            self.first = a
            self.w_before = np.array(self.learner.w)
            return self.fail(real, a, k)
        return real(*a, **k)

    def check_retry(self, a):
        P, P0 = np.array(a[0]), np.array(self.first[0])
        need(P.shape == P0.shape, "no-retry", "after the failure another "
             "problem is solved: %s variables instead of %s", P.shape[0],
             P0.shape[0])
        off = P - P0
        dia = np.diag(off).copy()
        np.fill_diagonal(off, 0)
        scale = max(1.0, np.abs(P0).max())
        need(np.abs(off).max() <= 1e-7 * scale and np.all(dia >= 0)
             and dia.max() <= 1e-4 * scale, "no-retry",
             "the retried QP is another problem: it differs by %r on the "
             "diagonal and %r elsewhere", dia, np.abs(off).max())
        for i, (p, q) in enumerate(zip(a[1:], self.first[1:])):
            need(np.allclose(np.array(cvxopt.matrix(p)),
                             np.array(cvxopt.matrix(q))),
                 "no-retry", "argument %d of the retried QP differs", i + 1)

    def fail(self, real, a, k):
        self.fired += 1
        status, how = self.bad
        self.w.fault("QP attempt fails: %s" % status, how)
        if status == "ValueError":
            raise ValueError("Rank(A) < p or Rank([P; A; G]) < n")
        r = dict(real(*a, **k))
        r["status"] = status
        x = np.ravel(r["x"])
        if how == "nan":
            x = x * np.nan
        elif how == "huge":
            x = 1e6 * (1 + np.arange(len(x)))
        elif how == "near":
            x = x * 0.5 + 0.1
        else:
            x = np.zeros(len(x))
        r["x"] = cvxopt.matrix(x)
        r["primal objective"] = float("nan") if how == "nan" else -1e9
        return r


def run(w):
    t = w.tape
    latent = t.chance(15, "latent")
    if latent:
        s = make_latent(t, learners=("latent_ssvm",),
                        bases=(W.OneSlackSSVM, W.NSlackSSVM))
        lower = upper = None
    else:
        p = W.make_problem(t, families=EXACT, max_n=5)
        if not p.integral:
            raise Reject("inference is relaxed")
        s = W.make_setup(t, problem=p, learners=("oneslack", "nslack"),
                         max_iter=400)
        s.cfg["tol"] = 1e-3 if s.kind == "oneslack" else -1e9
        W.maybe_negative(t, s, 20)
        if s.cfg["inactive_window"] == 2:
            s.cfg["inactive_window"] = 10
    s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    k = draw_workers(t)
    twice = bool(t.draw(2, "both attempts"))
    bad = (t.choice(STATUS, "status"),
           t.choice(("nan", "huge", "near", "zero"), "solution"))
    # -- the twin tells how many QPs there are
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        count = Solver(r, None, {}, bad)
        r.solver = count
        twin = s.build()
        guard(r, "fit", lambda: s.fit(twin))
    if not count.count:
        raise Reject("no QP")
    plan = {}
    if twice:
        at = 1 + t.draw(count.count, "failing QP")
        plan[at] = 2
        for i in range(1, at):
            if t.chance(20, "fails once"):
                plan[i] = 1
    else:
        plan[1 + t.draw(count.count, "failing QP")] = 1
        for i in range(1, 2 * count.count):
            if t.chance(25, "fails once"):
                plan[i] = 1
    w.stats.note = "%s on %s|QPs fail %s (%s, %s); %s; %s" % (
        s.kind, s.problem.name, plan, bad[0], bad[1], s.describe(),
        k.describe())
    w.backend = k
    l = s.build()
    base = l.base_ssvm if latent else l
    sv = w.solver = Solver(w, t, plan, bad)
    sv.learner = base
    data = deep(s.problem.X), deep(s.problem.Y)
    err = None
    try:
        s.fit(l)
    except Violation:
        raise
    except ValueError as e:
        err = e
    except Exception as e:
        raise Violation("failure-disguised", "fit raised %s: %s" % (
            type(e).__name__, str(e)[:200]))
    need(same_data(data[0], s.problem.X) and same_data(data[1], s.problem.Y),
         "data-modified", "the training data changed")
    if not sv.fired:
        raise Reject("no QP failed")
    need(sv.first is None, "no-retry", "the failed QP was not retried (%s)",
         "fit raised %s" % err if err else "fit went on")
    if not sv.gave_up:
        if err is not None:
            natural = any(x != "optimal" for x in w.qp_status) \
                and "QP solver failed" in str(err) and \
                len([x for x in w.qp_status if x != "optimal"]) > sv.fired
            if natural:
                raise Reject("the QP is numerically infeasible")
            raise Violation("retry-ignored", "fit raised %s although the "
                            "retry succeeded" % err)
        optimal(w, s, base, None if latent else p)
        w.stats.nontrivial = True
        return
    need(err is not None, "failure-swallowed",
         "both attempts of a QP failed (%s), but fit returned", bad[0])
    need(finite(base.w), "bad-solution-used", "w=%r after the failure",
         base.w)
    need(close(base.w, sv.w_before, 0, 0), "bad-solution-used",
         "w=%r after the failure, %r before", base.w, sv.w_before)
    # -- and on it goes
    sv.on = False
    if latent:
        guard(w, "fit after the failure", lambda: s.fit(l))
        if s.base is not W.SubgradientSSVM:
            need(close(l.w, twin.w, 1e-5, 1e-5), "wrong-after-failure",
                 "refitting gives w=%r, a fresh learner %r", l.w, twin.w)
        w.stats.nontrivial = True
        return
    again = t.choice(("refit", "warm"), "afterwards")
    if again == "warm" and hasattr(l, "constraints_"):
        guard(w, "warm start after the failure",
              lambda: s.fit(l, **warm(s, l)))
        optimal(w, s, l, p)
    else:
        guard(w, "fit after the failure", lambda: s.fit(l))
        need(close(l.w, twin.w, 1e-6, 1e-6), "wrong-after-failure",
             "refitting gives w=%r, a fresh learner %r", l.w, twin.w)
    w.stats.nontrivial = True


def optimal(w, s, l, p):
    need(finite(l.w), "bad-solution-used", "w=%r", l.w)
    bad = W.check_negative(s, l.w)
    need(bad is None, "bad-solution-used", "%s", bad)
    if p is None:
        for v in W.curves(l).values():
            need(finite(v), "bad-solution-used", "recorded %r", v)
        return
    model, C, n = l.model, s.cfg["C"], len(p.X)
    lower, upper, _ = W.solve_exact(p, model, C)
    if upper - lower > 1e-4 * max(1, upper):
        raise Reject("the reference QP was not solved well enough")
    got = W.enumerate_primal(p, model, l.w, C)
    slack = np.inf if "negativity_constraint" in s.cfg else n * C * (
        2e-3 if s.kind == "oneslack" else 2e-4) \
        + 2e-3 * max(1, upper)
    need(got <= upper + slack, "not-optimal", "training with failing QPs "
         "ends with objective %r, the optimum is %r", got, upper)
    for x in l.objective_curve_:
        need(np.isfinite(x) and x <= upper + 1e-3 * max(1, upper),
             "bad-solution-used", "a dual objective of %r was recorded, the "
             "optimum is %r", x, upper)
