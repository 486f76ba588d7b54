"""C12: a plain fit forgets the learner's past."""
import copy
import pickle

import numpy as np

from dst import workloads as W
from dst.workloads import close
from dst.common import (Injected, Reject, Violation, Workers, deep,
                        draw_workers, finite, guard, need, same_data,
                        sub_world)
from dst.core import SimCrash, silence_points
from dst.disk import Disk
from dst.latent import make_latent
from dst.props.c06 import Lost, Stopper, warm
from pystruct.utils import SaveLogger

TIERS = {"quick": {"runs": 3000, "wall": 80, "min": 400},
         "thorough": {"runs": 60000, "wall": 780, "min": 2000}}
RULE = ("a run puts one learner through two to six operations (fits on other "
        "data or with other parameters, interrupted, failing and warm-started "
        "fits, predict, score, deepcopy, pickling, loading a checkpoint, "
        "training through a worker pool) and then fits it plainly; weights, "
        "curves and predictions have to be those of a fresh learner; "
        "non-trivial when the history contained at least one fit")
REAL = ["pystruct learners, models, inference, SaveLogger", "cvxopt QP/LP",
        "ad3", "pickle", "joblib front end"]
STUB = ["raw file, rename, fsync (simulated disk)", "clock", "signal "
        "delivery", "failing calls", "joblib worker pool"]

OPS = ("other data", "interrupt", "failure", "parameters", "warm", "predict",
       "score", "deepcopy", "pickle", "checkpoint", "same data", "jobs",
       "other learner")

# what "parameters" may change for one fit
KNOBS = {
    "nslack": dict(tol=(1e-3, .5), batch_size=(100, 1, -1),
                   inactive_window=(50, 0, 2), show_loss_every=(0, 1, 2),
                   check_constraints=(True, False)),
    "oneslack": dict(tol=(1e-3, .5), inference_cache=(0, 2, 7),
                     inactive_window=(50, 0, 2), show_loss_every=(0, 1, 2),
                     cache_tol=("auto", .1), check_constraints=(True, False)),
    "fw": dict(tol=(1e-3, .5), line_search=(True, False),
               check_dual_every=(10, 1, 0), do_averaging=(True, False),
               sample_method=("perm", "rnd", "seq"),
               batch_mode=(False, True), random_state=(0, 7)),
    "subgradient": dict(momentum=(0., .5), decay_exponent=(1, 0, .5),
                        decay_t0=(10, 1), learning_rate=("auto", .1),
                        averaging=(None, "linear", "squared"),
                        show_loss_every=(0, 1, 2)),
    "perceptron": dict(average=(False, True, 1, -1), batch=(False, True),
                       decay_exponent=(0, -.5), decay_t0=(10, 1)),
}
KNOBS["fwbatch"] = KNOBS["fw"]
KNOBS["latent_subgradient"] = KNOBS["subgradient"]


def other_data(t, p, latent=False):
    """The samples in another order, some twice, some with other labels."""
    n = len(p.X)
    rng = np.random.RandomState(t.draw(1 << 12, "other data"))
    idx = list(rng.permutation(n)) + list(rng.randint(n, size=rng.randint(3)))
    X = [p.X[i] for i in idx]
    Y = [p.Y[i] for i in idx]
    if latent:
        H = None if p.H_init is None else [p.H_init[i] for i in idx]
        return (np.array(X) if isinstance(p.X, np.ndarray) else X,
                np.array(Y) if isinstance(p.Y, np.ndarray) else Y,
                np.array(H) if isinstance(p.H_init, np.ndarray) else H)
    if rng.randint(2) and p.name != "typed":
        Z = list(Y)
        for i in range(len(Z)):
            j = rng.randint(len(Z))
            if np.shape(Z[i]) == np.shape(Z[j]):
                Z[i], Z[j] = Z[j], Z[i]
        # labellings of several nodes only fit inputs of the same shape,
        # swapping keeps the set of labels
        Y = Z
    if isinstance(p.X, np.ndarray):
        X = np.array(X)
    if isinstance(p.Y, np.ndarray):
        Y = np.array(Y)
    return X, Y, None


def setup(t):
    if t.chance(25, "latent"):
        s = make_latent(t, learners=("latent_ssvm", "latent_subgradient"),
                        bases=(W.OneSlackSSVM, W.NSlackSSVM))
        if s.kind == "latent_ssvm" and s.problem.name in ("ltab", "lgraph", "lgrid", "ldirgrid") \
                and t.draw(2, "init_latent"):
            s.problem.H_init = None
    else:
        s = W.make_setup(t, learners=("nslack", "oneslack", "fw", "fwbatch",
                                      "perceptron", "subgradient"), max_n=5)
        W.maybe_negative(t, s)
    s.cfg["max_iter"] = min(s.cfg["max_iter"], 40)
    return s


def run(w):
    t = w.tape
    s = setup(t)
    p = s.problem
    latent = s.kind == "latent_ssvm"
    k = draw_workers(t)
    k.gap = 0
    w.backend = k
    w.entropy.seed(1)
    np.random.seed(3)
    hist = [t.choice(OPS, "operation")
            for _ in range(t.between(1, 6, "operations"))]
    w.stats.note = "%s on %s|%s; %s; %s" % (
        s.kind, p.name, ", ".join(hist), s.describe(), k.describe())
    if latent and p.H_init is None:
        with sub_world(w):
            m = p.make_model()
            m.initialize(p.X, p.Y)
            try:
                m.init_latent(p.X, p.Y)
            except ValueError:
                raise Reject("too few nodes for k-means")
        np.random.seed(3)
        w.entropy.seed(1)
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        fresh = s.build()
        guard(r, "fit", lambda: s.fit(fresh))
        want = guard(r, "predict", lambda: fresh.predict(p.Xt))
        seams = r.steps
    descent = "subgradient" in s.kind
    data = deep(p.X), deep(p.Y)
    l = s.build()
    stop = Stopper(w, k)
    fits = 0
    params = {}
    for op in hist:
        fitted = getattr(base(l), "w", None) is not None
        if op in ("predict", "score") and not fitted:
            op = "same data"
        if op in ("other data", "parameters", "same data", "warm", "jobs",
                  "other learner"):
            fits += 1
            one_fit(w, t, s, l, op, fitted)
        elif op in ("interrupt", "failure"):
            fits += 1
            stop.arm(t.draw(seams, "stop at"), KeyboardInterrupt()
                     if op == "interrupt" else Lost("4711"),
                     "KeyboardInterrupt" if op == "interrupt"
                     else "failing call")
            X, Y, H = other_data(t, p, latent) if t.draw(2, "other") \
                else (p.X, p.Y, getattr(p, "H_init", None))
            try:
                guard(w, "fit", lambda: fit(s, l, X, Y, H),
                      KeyboardInterrupt, Lost)
            except (KeyboardInterrupt, Lost):
                pass
            stop.disarm()
        elif op == "predict":
            guard(w, "predict", lambda: l.predict(p.Xt))
        elif op == "score":
            guard(w, "score", lambda: l.score(p.X, p.Y))
        elif op == "deepcopy":
            with silence_points():
                l = copy.deepcopy(l)
            w.fault("deepcopy")
        elif op == "pickle":
            with silence_points():
                l = relearn(pickle.loads(cloud(l)))
            w.fault("pickled and unpickled")
        elif op == "checkpoint":
            fits += 1
            l = through_checkpoint(w, t, s, l, stop, seams)
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    if not fits:
        raise Reject("no fit in the history")
    if descent:
        # goes on from its weights and step count, and from nothing else
        with sub_world(w, Workers(None, cpus=k.cpus)) as r:
            fresh = s.build()
            if hasattr(l, "w"):
                fresh.w = np.array(l.w)
            fresh.t = l.t
            np.random.seed(3)
            guard(r, "fit", lambda: s.fit(fresh))
            want = guard(r, "predict", lambda: fresh.predict(p.Xt))
    np.random.seed(3)
    out = guard(w, "the last fit", lambda: s.fit(l))
    need(out is l, "no-self", "fit returned %r", out)
    if latent:
        need(len(l.H_init_) == len(fresh.H_init_) and all(
            np.array_equal(a, b) for a, b in zip(l.H_init_, fresh.H_init_)),
             "history-matters", "after %s the latent states start at %r, a "
             "fresh learner's at %r", hist, l.H_init_, fresh.H_init_)
    need(close(l.w, fresh.w, 1e-8, 1e-9), "history-matters",
         "after %s fit gives w=%r, a fresh learner %r", hist, l.w, fresh.w)
    a, b = base(l), base(fresh)
    ca, cb = W.curves(a), W.curves(b)
    need(sorted(ca) == sorted(cb) and all(
        close(ca[x], cb[x], 1e-7, 1e-8) for x in ca), "history-matters",
        "after %s the curves are %r, a fresh learner's %r", hist, ca, cb)
    if hasattr(b, "timestamps_"):
        need(len(a.timestamps_) == len(b.timestamps_), "history-matters",
             "%d timestamps, a fresh learner has %d", len(a.timestamps_),
             len(b.timestamps_))
    if hasattr(b, "cached_constraint_"):
        need(list(a.cached_constraint_) == list(b.cached_constraint_),
             "history-matters", "cached_constraint_ is %r, a fresh "
             "learner's %r", a.cached_constraint_, b.cached_constraint_)
    got = guard(w, "predict", lambda: l.predict(p.Xt))
    need(len(got) == len(want) and all(W.same_labels(x, y)
                                       for x, y in zip(got, want)),
         "history-matters", "after %s the predictions are %r, a fresh "
         "learner's %r", hist, got, want)
    w.stats.nontrivial = True


def base(l):
    return getattr(l, "base_ssvm", l)


def cloud(l):
    import cloudpickle
    return cloudpickle.dumps(l)


def relearn(l):
    return l


def fit(s, l, X, Y, H, **kw):
    if s.kind == "latent_ssvm" and H is not None:
        kw["H_init"] = H
    return l.fit(X, Y, **kw)


def one_fit(w, t, s, l, op, fitted):
    p = s.problem
    b = base(l)
    X, Y, kw, saved = p.X, p.Y, {}, {}
    H = getattr(p, "H_init", None)
    latent = s.kind == "latent_ssvm"
    if op == "other data":
        X, Y, H = other_data(t, p, latent)
    elif op == "warm" and s.kind in ("nslack", "oneslack") \
            and hasattr(b, "constraints_") \
            and len(b.constraints_) == (len(p.X) if s.kind == "nslack"
                                        else len(b.constraints_)) and fitted:
        kw = warm(s, l)
    elif op == "other learner":
        # somebody else trains with the same model object
        o = W.make_setup(t, problem=p, max_iter=3) if not latent \
            and s.kind != "latent_subgradient" else s
        x = o.build()
        x.model = l.model
        w.fault("model shared with another learner")
        guard(w, "fit (another learner)", lambda: o.fit(x))
        return
    elif op == "warm" and "subgradient" in s.kind and fitted:
        kw = {"warm_start": True} if hasattr(b, "timestamps_") else {}
    elif op == "jobs":
        saved["n_jobs"] = b.n_jobs
        if s.kind not in ("fw", "fwbatch"):
            b.n_jobs = 2
        if s.kind == "subgradient":
            saved["batch_size"] = b.batch_size
            b.batch_size = None
    elif op == "parameters":
        saved = {"max_iter": b.max_iter}
        b.max_iter = t.choice((1, 2, 5), "max_iter")
        if s.kind != "perceptron":
            saved["C"] = l.C
            l.C = t.choice((0.01, 3.0), "other C")
        for name, values in sorted(KNOBS.get(s.kind, {}).items()):
            if t.draw(3, "keep") == 1:
                saved[name] = getattr(b, name)
                setattr(b, name, t.choice(values, name))
        w.fault("other parameters")
    np.random.seed(4)
    guard(w, "fit (%s)" % op, lambda: fit(s, l, X, Y, H, **kw))
    for name, v in saved.items():
        setattr(l if name == "C" else b, name, v)


def through_checkpoint(w, t, s, l, stop, seams):
    """Train with a SaveLogger, crash, go on with what was saved."""
    if w.disk is None:
        w.disk = Disk(w)
    d = w.disk
    log = SaveLogger(d.path("c12.pickle"), 1)
    old, l.logger = l.logger, log
    if s.kind != "latent_ssvm":
        base(l).logger = log
    stop.arm(t.draw(seams, "crash at"), SimCrash, "process crash")
    try:
        guard(w, "fit", lambda: s.fit(l))
        stop.disarm()
    except SimCrash:
        stop.disarm()
        d.restart()
    try:
        got = SaveLogger(d.path("c12.pickle")).load()
    except OSError:
        got = s.build()
    got.logger = None
    base(got).logger = None
    return got
