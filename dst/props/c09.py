"""C09: independent callers in one process do not disturb each other."""
import numpy as np
import cvxopt.solvers

from dst import workloads as W
from dst.workloads import close
from dst.common import (Reject, Violation, deep, finite, guard, need,
                        same_data, sub_world)
from dst.core import silence_points
from dst.latent import make_latent
from dst.threads import Lines, Scheduler

TIERS = {"quick": {"runs": 1500, "wall": 80, "min": 150},
         "thorough": {"runs": 16000, "wall": 780, "min": 800}}
MAX_STEPS = 400000
RULE = ("a run starts two or three caller threads in one process (training, "
        "predicting with a shared or a private learner, direct inference "
        "calls, some with a failing or interrupted call), switched "
        "preemptively after drawn numbers of lines, between bytecodes or "
        "whenever somebody is at one of a few drawn lines, and compares "
        "every result with the same call made alone; non-trivial when at "
        "least one switch happened inside pystruct")
REAL = ["pystruct learners, models, inference, utils (under preemption)",
        "cvxopt QP/LP", "ad3", "CPython threads, one at a time"]
STUB = ["thread scheduler", "clock"]


def run(w):
    t = w.tape
    try:
        callers(w, t)
    finally:
        cvxopt.solvers.options.clear()


def callers(w, t):
    n = t.between(2, 3, "threads")
    shared_p = W.make_problem(t, max_n=4)
    jobs = []
    notes = []
    shared = None
    # often everybody does the same thing, in another order
    same = t.choice((None, "fit", "predict", "oracle", "infer", "fit"),
                    "everybody")
    spec = {}
    for i in range(n):
        kind = same or t.choice(("fit", "predict", "latent", "infer",
                                 "oracle"), "caller")
        if kind == "latent":
            s = make_latent(t, max_n=3)
            s.cfg["max_iter"] = min(s.cfg["max_iter"], 6)
            jobs.append(fit_job(s, i))
        elif kind == "fit":
            p = shared_p if t.draw(2, "own data") == 0 else \
                W.make_problem(t, max_n=4)
            # often the same learner with another C
            alike = spec.get("kind") if same and t.draw(3, "alike") else None
            s = W.make_setup(t, problem=p, learners=(alike,) if alike
                             else W.LEARNERS)
            spec.setdefault("kind", s.kind)
            s.cfg["max_iter"] = min(s.cfg["max_iter"], 6)
            jobs.append(fit_job(s, i))
        elif kind == "predict":
            if shared is None:
                s = W.make_setup(t, problem=shared_p, max_iter=3)
                shared = s.build()
                with silence_points():
                    guard(w, "fit", lambda: s.fit(shared))
            s = None
            jobs.append(predict_job(t, shared, shared_p, i))
        elif kind == "oracle":
            if "model" not in spec:
                spec["model"] = shared_p.make_model()
                with silence_points():
                    spec["model"].initialize(shared_p.X, shared_p.Y)
            jobs.append(oracle_job(t, spec["model"], shared_p))
        else:
            jobs.append(infer_job(t, spec if same else {}))
        notes.append(jobs[-1].name)
    w.stats.note = "+".join(sorted(x.split(" ")[0] for x in notes)) \
        + "|" + "; ".join(notes)
    # -- alone
    # what the user has set
    opts = t.choice(({}, {"show_progress": True}, {"show_progress": False},
                     {"maxiters": 100, "show_progress": True}), "options")
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(opts)
    alone = []
    lines = Lines()
    aim = bool(t.draw(2, "switch at certain lines"))
    for j in jobs:
        with sub_world(w) as r:
            if aim:
                with lines:
                    alone.append(guard(r, j.name, j))
            else:
                alone.append(guard(r, j.name, j))
    data = [deep(j.data) for j in jobs]
    need(cvxopt.solvers.options == opts, "global-state",
         "cvxopt.solvers.options is %r, was %r after one call alone",
         dict(cvxopt.solvers.options), opts)
    state = np.random.get_state()[1].copy()
    # -- together
    if aim and lines.seen:
        # everybody waits for somebody else at these lines
        s = Scheduler(w, t.choice((0, 1000), "preemption gap"),
                      focus=lines.draw(t, t.between(1, 8, "lines")))
    else:
        gap = t.choice((30, 200, 6, 1000), "preemption gap")
        s = Scheduler(w, gap, opcodes=t.chance(12, "between bytecodes"))
    ths = [s.spawn("caller%d" % i, j) for i, j in enumerate(jobs)]
    s.run()
    for i, (th, j) in enumerate(zip(ths, jobs)):
        if th.error is not None:
            e = th.error
            if isinstance(e, (Violation, Reject)) or not isinstance(
                    e, Exception):
                raise e
            if isinstance(e, ValueError) and "QP solver failed" in str(e):
                raise Reject("the QP is numerically infeasible")
            raise Violation("unexpected-exception", "%s raised %s: %s when "
                            "run concurrently" % (j.name, type(e).__name__,
                                                  str(e)[:200]))
        r = differs(alone[i], th.result)
        need(r is None, "not-isolated", "%s: concurrently %s", j.name, r)
    for j, d in zip(jobs, data):
        need(same_data(d, deep(j.data)), "data-modified",
             "%s: the caller's data changed", j.name)
    need(dict(cvxopt.solvers.options) == opts, "global-state",
         "cvxopt.solvers.options is %r, was %r",
         dict(cvxopt.solvers.options), opts)
    need(np.array_equal(state, np.random.get_state()[1]), "global-state",
         "the global random state changed")
    w.fault("thread preempted", s.switches)
    w.stats.faults["thread preempted"] = s.switches
    w.stats.nontrivial = s.switches > 0


def differs(a, b):
    if isinstance(a, dict):
        for k in a:
            if not close(a[k], b[k], 1e-9, 1e-12):
                return "%s is %r instead of %r" % (k, b[k], a[k])
        return None
    if len(a) != len(b):
        return "%d results instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if not W.same_labels(x, y):
            return "result %d is %r instead of %r" % (i, y, x)
    return None


class Job:
    def __init__(self, name, fn, data):
        self.name, self.fn, self.data = name, fn, data

    def __call__(self):
        return self.fn()


def fit_job(s, i):
    def fn():
        l = s.build()
        s.fit(l)
        out = {"w": np.array(l.w)}
        if s.kind != "latent_ssvm":
            out.update(W.curves(l))
        out["predictions"] = np.hstack(
            [np.ravel(np.asarray(y, float)) for y in l.predict(s.problem.Xt)
             if not isinstance(y, tuple)] or [0.])
        return out
    return Job("fit %s on %s" % (s.kind, s.problem.name), fn,
               [list(s.problem.X), list(s.problem.Y)])


def predict_job(t, l, p, i):
    every = list(p.X) + list(p.Xt)
    order = np.arange(len(every)) if i == 0 else np.random.RandomState(
        t.draw(1 << 10, "order")).permutation(len(every))
    mine = [every[j] for j in order]
    return Job("predict with a shared learner",
               lambda: list(l.predict(list(mine))),
               [list(p.X), list(p.Xt), np.array(l.w)])


def oracle_job(t, m, p):
    """The calls of a training, on a model others use as well."""
    rng = np.random.RandomState(t.draw(1 << 10, "order"))
    order = rng.permutation(len(p.X))
    v = rng.normal(size=m.size_joint_feature)
    scaled = getattr(m, "rescale_C", False)

    def fn():
        out = []
        for i in order:
            x, y = p.X[i], p.Y[i]
            y_hat = m.loss_augmented_inference(x, y, v)
            more = (y,) if scaled else ()
            out += [y_hat, np.array(m.joint_feature(x, y, *more)),
                    np.array(m.joint_feature(x, y_hat, *more)),
                    np.array(m.loss(y, y_hat), dtype=float),
                    m.inference(x, v)]
        return out
    return Job("oracle calls on a shared model (%s)" % p.name, fn,
               [list(p.X), list(p.Y), v])


def infer_job(t, spec):
    """Direct calls of the inference functions."""
    from pystruct.inference import inference_dispatch
    rng = np.random.RandomState(t.draw(1 << 16, "data seed"))
    if not spec:
        spec.update(
            meth=t.choice(("lp", "ad3", "max-product", "unary"), "method"),
            k=t.between(2, 3, "states"), n=t.between(2, 5, "nodes"),
            loopy=bool(t.draw(2, "loopy")))
    meth, k, n = spec["meth"], spec["k"], spec["n"]
    edges = np.array([[rng.randint(i), i] for i in range(1, n)])
    if spec["loopy"] and n > 2:
        edges = np.vstack([[[i, i + 1] for i in range(n - 1)], [[0, n - 1]]])
    ne = len(edges)
    un = [rng.normal(size=(n, k)) for _ in range(3)]
    pw = [rng.normal(size=(ne, k, k)) for _ in range(3)]
    relaxed = bool(t.draw(2, "relaxed")) and meth in ("lp", "ad3")

    def fn():
        return [inference_dispatch(u, q, edges, meth, relaxed=relaxed)
                if meth in ("lp", "ad3") else
                inference_dispatch(u, q, edges, meth)
                for u, q in zip(un, pw)]
    return Job("infer with %s%s" % (meth, " on a loop" if ne == n else ""),
               fn, [un, pw, edges])
