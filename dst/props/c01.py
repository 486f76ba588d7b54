"""C01: parallel training and prediction do not depend on the workers."""
import numpy as np

from dst import workloads as W
from dst.workloads import close
from dst.common import (Reject, Violation, draw_workers, guard, need,
                        rel_close, same_curves, sub_world, Workers, finite)
from dst.core import silence_points

TIERS = {"quick": {"runs": 3200, "wall": 75, "min": 400},
         "thorough": {"runs": 60000, "wall": 780, "min": 2000}}
RULE = ("a run draws a problem, a learner and its knobs, a number of jobs and "
        "a worker pool (shared memory, separate memory with pickled "
        "arguments and results, or preemptively interleaved threads; "
        "completion order; joblib batching; read-only arrays; core count) "
        "and compares with an in-order pool, with n_jobs=1, or with a small "
        "reference model; non-trivial when the pool executed at least two "
        "tasks and the comparison was made")
REAL = ["pystruct learners, models, inference, utils", "joblib.Parallel "
        "front end (dispatch, batching, retrieval)", "cvxopt QP/LP", "ad3"]
STUB = ["joblib worker pool (simulated backend)", "clock", "cpu_count"]


def run(w):
    t = w.tape
    what = t.choice(("fit", "subgradient", "predict", "latent", "fit",
                     "subgradient", "predict", "constraints"), "scenario")
    jobs = t.choice((2, 3, 4, -1, 7), "n_jobs")
    {"fit": fit_case, "subgradient": subgradient_case,
     "predict": predict_case, "latent": latent_case,
     "constraints": constraints_case}[what](w, t, jobs)


def train(w, s, what, **over):
    l = s.build(**over)
    guard(w, what, lambda: s.fit(l))
    return l


def compare(a, b, what, wtol=1e-6):
    need(finite(a.w), "not-finite", "%s: w is not finite", what)
    need(close(a.w, b.w, rtol=wtol, atol=wtol), "different-w",
         "%s: w differs: %r vs %r", what, a.w, b.w)
    ca, cb = W.curves(a), W.curves(b)
    need(sorted(ca) == sorted(cb), "different-curves",
         "%s: recorded curves %s vs %s", what, sorted(ca), sorted(cb))
    for k in ca:
        need(same_curves(ca[k], cb[k], 1e-6, 1e-6), "different-curves",
             "%s: %s differs: %s vs %s", what, k, ca[k], cb[k])
    need(len(a.timestamps_) == len(b.timestamps_)
         if hasattr(a, "timestamps_") else True, "different-curves",
         "%s: number of timestamps", what)


def note(w, s, k, jobs, extra=""):
    w.stats.note = "%s on %s|%s; n_jobs=%d; %s %s" % (
        s.kind, s.problem.name, s.describe(), jobs, k.describe(), extra)


def fit_case(w, t, jobs):
    """Cutting plane learners and the batch perceptron: any pool = in-order
    pool exactly, = sequential training up to rounding."""
    if t.chance(12, "cached relaxations"):
        # fractional solutions that recur in the cache
        s = W.make_setup(t, learners=("oneslack",), families=("loopy",))
        s.cfg["inference_cache"] = t.choice((50, 3), "cache")
    else:
        s = W.make_setup(t, learners=("nslack", "oneslack", "perceptron"))
    W.maybe_negative(t, s)
    if s.kind == "perceptron":
        s.cfg["batch"] = True
    k = draw_workers(t)
    note(w, s, k, jobs)
    s.cfg["n_jobs"] = jobs
    w.backend = k
    par = train(w, s, "parallel fit")
    ran = k.tasks
    with sub_world(w, Workers(None, cpus=k.cpus)):
        inorder = train(w, s, "in-order fit")
    compare(par, inorder, "any completion order vs in order")
    with sub_world(w):
        seq = train(w, s, "sequential fit", n_jobs=1)
    if s.kind == "perceptron":
        compare(par, seq, "n_jobs=%d vs 1" % jobs)
    else:
        # same cutting planes; rounding may differ in the last digits
        need(close(par.w, seq.w, rtol=1e-3, atol=1e-3), "different-w",
             "n_jobs=%d: w=%r, n_jobs=1: w=%r", jobs, par.w, seq.w)
        need(rel_close(par.objective_curve_[-1], seq.objective_curve_[-1],
                       1e-4), "different-curves",
             "n_jobs=%d: final objective %r, n_jobs=1: %r", jobs,
             par.objective_curve_[-1], seq.objective_curve_[-1])
        need(len(par.objective_curve_) == len(seq.objective_curve_),
             "different-curves", "number of iterations %d vs %d",
             len(par.objective_curve_), len(seq.objective_curve_))
    check_predict(w, s, par, k)
    w.stats.nontrivial = ran >= 2


def check_predict(w, s, learner, k):
    """predict through the pool = the model's own answers, in input order."""
    p = s.problem
    X = list(p.Xt) + list(p.X)
    got = guard(w, "parallel predict", lambda: learner.predict(X))
    with silence_points():
        want = [learner.model.inference(x, learner.w) for x in X]
        if hasattr(learner.model, "label_from_latent"):
            want = [learner.model.label_from_latent(h) for h in want]
    need(len(got) == len(want), "wrong-prediction",
         "%d predictions for %d inputs", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        need(W.same_labels(a, b), "wrong-prediction",
             "prediction %d is %r instead of %r", i, a, b)


def predict_case(w, t, jobs):
    """Prediction and scoring with a fitted learner."""
    s = W.make_setup(t, max_iter=3)
    k = draw_workers(t)
    note(w, s, k, jobs, "predict")
    with sub_world(w):
        l = train(w, s, "fit", n_jobs=1)
        seq_pred = guard(w, "predict", lambda: l.predict(s.problem.X))
        seq_score = guard(w, "score", lambda: l.score(s.problem.X,
                                                      s.problem.Y))
    l.n_jobs = jobs
    w.backend = k
    check_predict(w, s, l, k)
    pred = guard(w, "parallel predict", lambda: l.predict(s.problem.X))
    for i, (a, b) in enumerate(zip(pred, seq_pred)):
        need(W.same_labels(a, b), "wrong-prediction",
             "training prediction %d is %r with n_jobs=%d, %r with 1",
             i, a, jobs, b)
    score = guard(w, "parallel score", lambda: l.score(s.problem.X,
                                                       s.problem.Y))
    need(rel_close(score, seq_score, 1e-9), "wrong-score",
         "score %r with n_jobs=%d, %r with n_jobs=1", score, jobs, seq_score)
    w.stats.nontrivial = k.tasks >= 2


def draw_constraints(rng, sizes, states):
    """Logical constraints of one sample, per node type: force, forbid or
    couple node states."""
    out = []
    for _ in range(rng.randint(1, 3)):
        a = rng.randint(len(sizes))
        op = ("XOR", "OR", "ATMOSTONE")[rng.randint(3)]
        nodes = [int(i) for i in rng.permutation(sizes[a])
                 [:1 + rng.randint(sizes[a])]]
        if len(nodes) == 1 and op == "ATMOSTONE":
            op = "XOR"
        st = [int(rng.randint(states[a])) for _ in nodes]
        neg = [bool(rng.randint(2)) for _ in nodes]
        if len(sizes) == 1:
            out.append((op, nodes, st, neg))
        else:
            pick = lambda v: [v if b == a else [] for b in range(len(sizes))]
            out.append((op, pick(nodes), pick(st), pick(neg)))
    return out


def constraints_case(w, t, jobs):
    """predict(X, constraints): the model's own constrained answers, in
    input order, by any pool."""
    rng = np.random.RandomState(t.draw(1 << 16, "constraint seed"))
    cls = t.choice((W.NSlackSSVM, W.SubgradientSSVM, W.StructuredPerceptron),
                   "learner")
    typed = t.chance(60, "typed")
    if typed:
        p = W.make_problem(t, ("typed",), max_n=4)
        m = p.make_model()
        m.setInferenceMethod("ad3+")
        X = list(p.X) + list(p.Xt)
        cons = [draw_constraints(rng, [len(f) for f in x[0]], m.l_n_states)
                for x in X]
    else:
        p = W.make_problem(t, ("edge",), max_n=4)
        m = p.make_model()
        m.inference_method = "ad3+"
        X = list(p.X) + list(p.Xt)
        cons = [draw_constraints(rng, [len(x[0])], [m.n_states]) for x in X]
    for i in range(len(cons)):
        if not rng.randint(4):
            cons[i] = [] if rng.randint(2) else None
    k = draw_workers(t)
    l = cls(m)
    l.w = rng.normal(size=m.size_joint_feature)
    w.stats.note = "%s.predict(constraints) with a %s model; n_jobs=%d; %s" \
        % (cls.__name__, "typed" if typed else "edge feature", jobs,
           k.describe())
    with sub_world(w):
        seq = guard(w, "predict", lambda: l.predict(X, constraints=cons))
        with silence_points():
            want = [m.inference(x, l.w, constraints=c)
                    for x, c in zip(X, cons)]
            free = [m.inference(x, l.w) for x in X]
    l.n_jobs = jobs
    w.backend = k
    par = guard(w, "parallel predict", lambda: l.predict(X, constraints=cons))
    for name, got in (("n_jobs=1", seq), ("n_jobs=%d" % jobs, par)):
        need(len(got) == len(want), "wrong-prediction",
             "%s: %d predictions for %d inputs", name, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            need(W.same_labels(a, b), "wrong-prediction",
                 "%s: prediction %d under constraints %r is %r instead of %r",
                 name, i, cons[i], a, b)
    w.stats.nontrivial = k.tasks >= 2 and any(
        not W.same_labels(a, b) for a, b in zip(want, free))


# -- subgradient ---------------------------------------------------------------
def subgradient_case(w, t, jobs):
    """Any pool = in-order pool = the sequential learner run on the same
    groups of samples."""
    s = W.make_setup(t, learners=("subgradient",))
    s.cfg["batch_size"] = None
    if t.draw(2, "shuffle"):
        s.cfg["shuffle"] = True
    k = draw_workers(t)
    note(w, s, k, jobs)
    s.cfg["n_jobs"] = jobs
    w.backend = k
    np.random.seed(77)
    par = train(w, s, "parallel fit")
    ran = k.tasks
    with sub_world(w, Workers(None, cpus=k.cpus)):
        np.random.seed(77)
        inorder = train(w, s, "in-order fit")
    compare(par, inorder, "any completion order vs in order")
    if not s.cfg.get("shuffle"):
        with sub_world(w):
            check_minibatches(w, s, par, jobs if jobs > 0 else k.cpus)
    check_predict(w, s, par, k)
    w.stats.nontrivial = ran >= 2


def check_minibatches(w, s, par, jobs):
    """The first epoch's objective is the regularised risk over the samples
    at the weights each group saw, and the last entry is the true primal
    objective at the returned weights."""
    want = W.primal(s.problem, par.model, par.w, s.cfg["C"])
    need(rel_close(par.objective_curve_[-1], want, 1e-6), "wrong-objective",
         "the final objective is recorded as %r, but is %r at the returned w",
         par.objective_curve_[-1], want)
    if jobs == 1:
        return
    ref = reference_epochs(s, jobs)
    need(close(par.w, ref, rtol=1e-6, atol=1e-7), "different-w",
         "mini-batches of %d: w=%r, reference model w=%r", jobs, par.w, ref)


def reference_epochs(s, jobs):
    """Subgradient descent over groups of at most `jobs` consecutive samples
    of even size, every violated sample of a group at the group's weights."""
    p, c = s.problem, s.cfg
    m = p.make_model()
    with silence_points():
        m.initialize(p.X, p.Y)
        n = len(p.X)
        C = c["C"]
        w = np.zeros(m.size_joint_feature)
        mean = w
        grad_old = np.zeros_like(w)
        rate = C * n if c["learning_rate"] == "auto" else c["learning_rate"]
        steps = 0
        groups = int(np.ceil(n / float(jobs)))
        sizes = [n // groups + (1 if i < n % groups else 0)
                 for i in range(groups)]
        bounds = np.hstack([[0], np.cumsum(sizes)])
        for epoch in range(c["max_iter"]):
            positive = 0
            for b in range(groups):
                g = np.zeros_like(w)
                for i in range(bounds[b], bounds[b + 1]):
                    x, y = p.X[i], p.Y[i]
                    s_i = W.slack_of(m, x, y, w)
                    if s_i > 0:
                        y_hat = m.loss_augmented_inference(x, y, w,
                                                           relaxed=True)
                        g += W.joint(m, x, y, y) - W.joint(m, x, y_hat, y)
                        positive += 1
                eff, t0 = rate, c.get("decay_t0", 10)
                if c["decay_exponent"]:
                    eff = eff / (t0 + steps) ** c["decay_exponent"]
                grad_old = ((1 - c["momentum"]) * (g - w / (C * n))
                            + c["momentum"] * grad_old)
                w = w + eff * grad_old
                mean = average(c["averaging"], steps, mean, w)
                steps += 1
            if positive == 0 and c.get("break_on_no_constraints", True):
                break
    return mean


def average(kind, t, mean, w):
    """The weighted running average after step number t."""
    if kind == "linear":
        rho = 2. / (t + 2.)
    elif kind == "squared":
        rho = 6. * (t + 1) / ((t + 2) * (2. * t + 3))
    else:
        return w
    return (1. - rho) * mean + rho * w


# -- latent ------------------------------------------------------------------------
def latent_case(w, t, jobs):
    """SubgradientLatentSSVM through any pool = in-order pool."""
    from dst.latent import make_latent
    s = make_latent(t, learners=("latent_subgradient",))
    k = draw_workers(t)
    note(w, s, k, jobs)
    s.cfg["n_jobs"] = jobs
    w.backend = k
    par = train(w, s, "parallel fit")
    ran = k.tasks
    with sub_world(w, Workers(None, cpus=k.cpus)):
        inorder = train(w, s, "in-order fit")
    compare(par, inorder, "any completion order vs in order")
    with sub_world(w), silence_points():
        ref = latent_epochs(s, jobs if jobs > 0 else k.cpus)
    need(close(par.w, ref, rtol=1e-6, atol=1e-7), "different-w",
         "mini-batches of %s: w=%r, reference model w=%r", jobs, par.w, ref)
    check_predict(w, s, par, k)
    w.stats.nontrivial = ran >= 2


def latent_epochs(s, jobs):
    """Latent subgradient descent: a step along the mean over each group of
    at most `jobs` consecutive samples (each sample for itself if 1)."""
    p, c = s.problem, s.cfg
    l = s.build()
    m, w = l.model, np.array(l.w)
    mean, grad_old = w, np.zeros_like(w)
    n, C = len(p.X), c["C"]
    rate = C * n if c["learning_rate"] == "auto" else c["learning_rate"]
    steps = 0
    groups = int(np.ceil(n / float(jobs)))
    sizes = [n // groups + (1 if i < n % groups else 0)
             for i in range(groups)]
    bounds = np.hstack([[0], np.cumsum(sizes)])
    for epoch in range(c["max_iter"]):
        positive = 0
        for b in range(groups):
            g = np.zeros_like(w)
            for i in range(bounds[b], bounds[b + 1]):
                x, y = p.X[i], p.Y[i]
                h = m.latent(x, y, w)
                h_hat = m.loss_augmented_inference(x, h, w, relaxed=True)
                d = m.joint_feature(x, h) - m.joint_feature(x, h_hat)
                positive += m.loss(h, h_hat) - np.dot(w, d) > 0
                g += d / sizes[b]
            eff = rate
            if c["decay_exponent"]:
                eff = eff / (c.get("decay_t0", 10) + steps) \
                    ** c["decay_exponent"]
            grad_old = ((1 - c["momentum"]) * (g - w / (C * n))
                        + c["momentum"] * grad_old)
            w = w + eff * grad_old
            mean = average(c["averaging"], steps, mean, w)
            steps += 1
        if positive == 0 and c.get("break_on_no_constraints", True):
            break
    return mean
