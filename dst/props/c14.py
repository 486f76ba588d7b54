"""C14: latent training alternates consistent completion and optimisation."""
import numpy as np

from dst import workloads as W
from dst.common import (Injected, Reject, Violation, Workers, deep,
                        draw_workers, finite, guard, need, rel_close,
                        same_data, sub_world)
from dst.core import silence_points
from dst.latent import make_latent
from dst.props.c06 import Lost, Stopper

TIERS = {"quick": {"runs": 2500, "wall": 80, "min": 300},
         "thorough": {"runs": 50000, "wall": 780, "min": 1500}}
RULE = ("a run trains a latent learner through a drawn worker pool while QPs "
        "fail once, completions or loss-augmented answers are arbitrary "
        "legal ones, or Ctrl-C or a failing call strikes at a drawn seam; "
        "every round's completions, hand-over to the base learner, optimum "
        "and objective are compared with enumeration, or the whole training "
        "with a reference descent; non-trivial when a second round was "
        "reached or the reference descent made a step")
REAL = ["LatentSSVM, SubgradientLatentSSVM and base learners, latent models",
        "cvxopt QP", "ad3", "joblib front end"]
STUB = ["joblib worker pool", "failing QP attempts", "replaced completions "
        "and answers", "signal delivery", "clock"]


def run(w):
    t = w.tape
    {"alternation": alternation, "stopped": stopped,
     "descent": descent}[t.choice(("alternation", "stopped", "descent"),
                                  "scenario")](w, t)


class Round:
    def __init__(self, X, H, constraints, warm, w, old):
        self.X, self.H = X, deep(H)
        self.constraints = deep(constraints)
        self.warm, self.w_in, self.old = warm, w, old
        self.w = None
        self.iterations = None


def watched(base, rounds):
    """The base learner, telling what it is asked to do."""
    class Watched(base):
        def fit(self, X, Y, *a, **kw):
            r = Round(X, Y, kw.get("constraints"),
                      kw.get("warm_start", False),
                      np.array(self.w) if getattr(self, "w", None)
                      is not None else None,
                      deep(getattr(self, "constraints_", None)))
            rounds.append(r)
            before = len(getattr(self, "objective_curve_", ()))
            try:
                return base.fit(self, X, Y, *a, **kw)
            finally:
                if getattr(self, "w", None) is not None:
                    r.w = np.array(self.w)
                n = len(getattr(self, "objective_curve_", ()))
                r.iterations = n - before if n >= before else n
    Watched.__name__ = base.__name__
    return Watched


class Careless:
    """Completions and answers that are legal but not the best ones."""

    def __init__(self, w, t, p, latent, lai):
        self.w, self.t, self.p = w, t, p
        self.rate = {"latent": latent, "lai": lai}
        self.fired = 0
        self.seen = []

    def __call__(self, world, model, kind, n, x, y, w, call):
        good = call()
        if world is not self.w:
            return good
        if self.t.chance(self.rate.get(kind, 0), "careless"):
            self.fired += 1
            world.fault("careless " + kind)
            every = self.p.completions(x, y) if kind == "latent" \
                else self.p.labels(x, y)
            good = every[self.t.draw(len(every), "which")]
            if isinstance(good, np.ndarray):
                good = np.array(good)
        if kind == "latent":
            self.seen.append((x, y, np.array(w), deep(good)))
        return good


class OnceFailing:
    """QP attempts of the base learner that fail once."""

    def __init__(self, w, t, rate):
        self.w, self.t, self.rate = w, t, rate
        self.retry = False

    def __call__(self, world, name, real, a, k):
        if name != "qp" or world is not self.w or self.retry:
            self.retry = False
            return real(*a, **k)
        if self.t.chance(self.rate, "QP fails"):
            self.retry = True
            world.fault("QP attempt fails")
            if self.t.draw(2, "how"):
                raise ValueError("Rank(A) < p or Rank([P; A; G]) < n")
            r = dict(real(*a, **k))
            r["status"] = "unknown"
            r["x"] = r["x"] * 0 + 7.
            return r
        return real(*a, **k)


def setup(t, **kw):
    s = make_latent(t, learners=("latent_ssvm",), max_n=4, **kw)
    s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    if s.base is W.SubgradientSSVM and s.cfg["n_jobs"] != 1:
        s.cfg["batch_size"] = None
    s.latent_iter = t.choice((3, 1, 5, 2), "rounds")
    return s


def best_completion(p, model, x, y, w):
    c = p.completions(x, y)
    v = [float(np.dot(w, model.joint_feature(x, h))) for h in c]
    return c, v


def latent_objective(p, model, w, C):
    """1/2 |w|^2 + C sum (max_h' (loss + score) - max_{h of y} score)."""
    total = 0.0
    for x, y in zip(p.X, p.Y):
        c, v = best_completion(p, model, x, y, w)
        gt = c[int(np.argmax(v))]
        total += max(0.0, max(
            model.loss(gt, z) + float(np.dot(w, model.joint_feature(x, z)))
            for z in p.labels(x, gt)) - max(v))
    return C * total + np.dot(w, w) / 2.


class Completed:
    """The completed problem of one round, for the exact solver."""

    def __init__(self, p, H):
        self.X, self.Y, self.labels = p.X, H, p.labels


def check_rounds(w, s, l, rounds, sick, first, stopped=False):
    """What every training, disturbed or not, has to satisfy."""
    p, model = s.problem, l.model
    n = len(p.X)
    need(1 <= len(rounds) <= s.latent_iter, "wrong-rounds", "%d rounds with "
         "latent_iter=%d", len(rounds), s.latent_iter)
    seen = list(sick.seen)
    grids = p.name in ("lgrid", "ldirgrid")
    for i, r in enumerate(rounds):
        need(len(r.H) == n and same_data(list(r.X), list(p.X)),
             "wrong-completion", "round %d trains on other samples", i)
        for x, y, h in zip(p.X, p.Y, r.H):
            need(W.same_labels(p.label(x, h), y), "inconsistent-completion",
                 "round %d: completion %r stands for %r, the label is %r",
                 i, h, p.label(x, h), y)
            need(W.same_labels(model.label_from_latent(h), y)
                 or p.hidden is not None, "inconsistent-completion",
                 "label_from_latent(%r) is not %r", h, y)
        if i == 0:
            need(same_labelling(r.H, first), "wrong-completion",
                 "the first round trains on %r, not on the initial %r", r.H,
                 first)
            need(not r.warm and r.constraints is None, "wrong-handover",
                 "the first round is a warm start")
            continue
        prev = rounds[i - 1]
        need(prev.w is not None and r.w_in is not None
             and W.close(prev.w, r.w_in, 0, 0), "wrong-handover",
             "w changed between the rounds")
        need(not same_labelling(r.H, prev.H), "wrong-rounds", "round %d "
             "repeats the completions of round %d", i, i - 1)
        asked, seen = seen[:n], seen[n:]
        check_answers(p, asked, prev.w, r.H, i)
        if not sick.rate["latent"]:
            for x, y, h in zip(p.X, p.Y, r.H):
                c, v = best_completion(p, model, x, y, prev.w)
                got = float(np.dot(prev.w, model.joint_feature(x, h)))
                tol = 1e-6 * max(1, max(map(abs, v)))
                if grids:
                    tol = 0.05 * max(1, max(map(abs, v)))
                need(got >= max(v) - tol, "poor-completion", "round %d: "
                     "completion %r scores %r, %r scores %r", i, h, got,
                     c[int(np.argmax(v))], max(v))
        if issubclass(s.base, W.NSlackSSVM):
            check_constraints(p, model, r, i)
        else:
            need(r.constraints is None, "wrong-handover",
                 "round %d: constraints for %s", i, s.base.__name__)
    if stopped:
        return
    if len(rounds) < s.latent_iter:
        # stopped early: the completions no longer changed
        need(len(seen) == n, "wrong-rounds", "training stopped after %d of "
             "%d rounds with %d completions computed", len(rounds),
             s.latent_iter, len(seen))
        check_answers(p, seen, rounds[-1].w, rounds[-1].H, len(rounds))
    else:
        need(not seen, "wrong-rounds", "completions after the last round")
    need(W.close(l.w, rounds[-1].w, 0, 0), "wrong-w", "w=%r, the last round "
         "ended with %r", l.w, rounds[-1].w)


def same_labelling(a, b):
    return len(a) == len(b) and all(W.same_labels(g, h)
                                    for g, h in zip(a, b))


def check_answers(p, asked, w, H, i):
    need(len(asked) == len(p.X), "wrong-completion", "round %d computed %d "
         "completions for %d samples", i, len(asked), len(p.X))
    for (x, y, v, h), x0, y0, h0 in zip(asked, p.X, p.Y, H):
        need(same_data(x, x0) and W.same_labels(y, y0) and W.close(v, w, 0,
                                                                    0),
             "wrong-completion", "round %d completed %r for w=%r", i, y, v)
        need(W.same_labels(h, h0), "wrong-completion", "round %d trains on "
             "%r, the model completed %r", i, h0, h)


def check_constraints(p, model, r, i):
    need(r.constraints is not None and r.old is not None
         and len(r.constraints) == len(p.X), "wrong-handover",
         "round %d: constraints of %d samples for %d", i,
         len(r.constraints or ()), len(p.X))
    for x, h, new, old in zip(p.X, r.H, r.constraints, r.old):
        need(len(new) == len(old), "wrong-handover", "round %d: %d "
             "constraints became %d", i, len(old), len(new))
        for c, o in zip(new, old):
            need(W.same_labels(c[0], o[0]), "wrong-handover", "round %d: "
                 "constraint for %r became one for %r", i, o[0], c[0])
            d = model.joint_feature(x, h) - model.joint_feature(x, o[0])
            loss = model.loss(h, o[0])
            need(W.close(c[1], d, 1e-9, 1e-9) and abs(c[2] - loss) < 1e-9,
                 "wrong-handover", "round %d: a constraint was not adjusted "
                 "to the new completion", i)


def initial(p, model):
    if p.H_init is not None:
        return p.H_init
    return model.init_latent(p.X, p.Y)


def check_answers_of(w, s, l):
    """predict is the observed part of the most likely latent labelling."""
    p, model = s.problem, l.model
    keep = w.on_infer
    w.on_infer = None
    lat = guard(w, "predict_latent", lambda: l.predict_latent(p.Xt))
    got = guard(w, "predict", lambda: l.predict(p.Xt))
    sc = guard(w, "score", lambda: l.score(p.X, p.Y))
    on = guard(w, "predict", lambda: l.predict(p.X))
    w.on_infer = keep
    need(len(got) == len(lat) == len(p.Xt), "wrong-prediction", "%d "
         "predictions", len(got))
    with silence_points():
        for x, h, y in zip(p.Xt, lat, got):
            # nodes without a label: any state
            if p.hidden is None:
                need(W.same_labels(p.label(x, h), y), "wrong-prediction",
                     "predict gives %r for the latent %r", y, h)
            else:
                need(W.same_labels(model.label_from_latent(h), y),
                     "wrong-prediction", "predict gives %r for %r", y, h)
            if p.name in ("lgrid", "ldirgrid"):
                continue
            v = max(float(np.dot(l.w, model.joint_feature(x, z)))
                    for z in p.labels(x, h))
            g = float(np.dot(l.w, model.joint_feature(x, h)))
            need(g >= v - 1e-6 * max(1, abs(v)), "wrong-prediction",
                 "predict_latent gives %r with score %r, the best is %r", h,
                 g, v)
        loss = sum(model.base_loss(y, z) for y, z in zip(p.Y, on))
        total = sum(model.max_loss(y) for y in p.Y)
    need(abs(sc - (1 - loss / float(total))) < 1e-9, "wrong-score",
         "score %r, losses %r of %r", sc, loss, total)


def alternation(w, t):
    s = setup(t)
    p = s.problem
    k = draw_workers(t)
    k.gap = 0
    cutting = s.base is not W.SubgradientSSVM
    sick = Careless(w, t, p, t.choice((0, 0, 50), "latent careless"),
                    t.choice((0, 0, 25), "lai careless"))
    qp = t.choice((0, 0, 30), "QP fails") if cutting else 0
    rounds = []
    s.base = watched(s.base, rounds)
    w.backend = k
    w.stats.note = "%s[%s] on %s|careless %s, QP %d%%; %s; %s" % (
        s.kind, s.base.__name__, p.name, sorted(sick.rate.items()), qp,
        s.describe(), k.describe())
    data = deep(p.X), deep(p.Y), deep(p.H_init)
    calls = []
    l = s.build(outer_logger=lambda who, it: calls.append(
        (who, it, np.array(who.w))))
    with silence_points():
        first = deep(initial(p, s.problem.make_model()))
    w.on_infer = sick
    if qp:
        w.solver = OnceFailing(w, t, qp)
    guard(w, "fit", lambda: s.fit(l))
    w.solver = None
    need(same_data(data, (p.X, p.Y, p.H_init)), "data-modified",
         "the data or H_init changed")
    with silence_points():
        check_rounds(w, s, l, rounds, sick, first)
        need([c[1] for c in calls] == list(range(len(rounds)))
             and all(c[0] is l for c in calls)
             and all(W.close(c[2], r.w, 0, 0)
                     for c, r in zip(calls, rounds)), "wrong-logging",
             "the logger was called for the rounds %s of %d",
             [c[1] for c in calls], len(rounds))
        if cutting and not sick.rate["lai"]:
            check_optima(w, s, l, rounds, sick)
    check_answers_of(w, s, l)
    w.stats.nontrivial = len(rounds) > 1
    if len(rounds) > 1:
        w.probe("second rounds")
    if len(rounds) == s.latent_iter:
        w.probe("ran to the round limit")
    else:
        w.probe("stopped with unchanged completions")


def check_optima(w, s, l, rounds, sick):
    """Every converged round ends at the optimum of its completed problem;
    then the latent objective does not rise."""
    p, model, C = s.problem, l.model, s.cfg["C"]
    if issubclass(s.base, W.NSlackSSVM):
        # leaves out constraints between latent states of the right label
        return
    if p.name in ("lgrid", "ldirgrid") or p.name == "lgraph" \
            and len(p.X) > 3:
        return
    last = None
    for i, r in enumerate(rounds):
        if r.iterations is None or r.iterations >= s.cfg["max_iter"]:
            last = None
            continue
        q = Completed(p, r.H)
        lower, upper, _ = W.solve_exact(q, model, C)
        if upper - lower > 1e-4 * max(1, upper):
            last = None
            continue
        got = W.enumerate_primal(q, model, r.w, C)
        eps = C * len(p.X) * 2e-3 + 2e-3 * max(1, upper)
        need(got <= upper + eps, "not-optimal", "round %d ends with "
             "objective %r on its completed problem, the optimum is %r", i,
             got, upper)
        w.probe("round optima compared")
        F = latent_objective(p, model, r.w, C)
        need(F <= got + 1e-6 * max(1, got), "harness", "latent objective %r "
             "above the completed one %r", F, got)
        if last is not None and not sick.rate["latent"]:
            need(F <= last + eps, "objective-rose", "round %d raised the "
                 "latent objective from %r to %r", i, last, F)
            w.probe("latent objectives compared")
        last = F


def stopped(w, t):
    """Ctrl-C or a failing call in the middle; then again from scratch."""
    s = setup(t)
    p = s.problem
    k = draw_workers(t)
    k.gap = 0
    rounds = []
    s.base = watched(s.base, rounds)
    sick = Careless(w, t, p, 0, 0)
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        twin = s.build()
        guard(r, "fit", lambda: s.fit(twin))
        seams = r.steps
    rounds[:] = []
    kind = t.choice(("Ctrl-C", "failure"), "stop")
    exc = KeyboardInterrupt() if kind == "Ctrl-C" else Lost("4711")
    w.backend = k
    w.on_infer = sick
    w.stats.note = "%s[%s] on %s|%s; %s; %s" % (
        s.kind, s.base.__name__, p.name, kind, s.describe(), k.describe())
    stop = Stopper(w, k)
    stop.arm(t.draw(seams, "at"), exc, kind)
    data = deep(p.X), deep(p.Y), deep(p.H_init)
    l = s.build()
    with silence_points():
        first = deep(initial(p, s.problem.make_model()))
    out = False
    try:
        guard(w, "fit", lambda: s.fit(l), type(exc))
    except type(exc) as e:
        need(e is exc, "wrong-exception", "raised %r instead of %r", e, exc)
        out = True
    stop.disarm()
    need(same_data(data, (p.X, p.Y, p.H_init)), "data-modified",
         "the data or H_init changed")
    if stop.fired and kind == "failure":
        need(out, "fault-ignored", "%r was raised, but fit returned", exc)
    if rounds:
        with silence_points():
            if out:
                check_rounds(w, s, l, rounds, sick, first, True)
                need(rounds[-1].w is None or W.close(l.w, rounds[-1].w, 0,
                                                     0), "wrong-w",
                     "w=%r, the last round ended with %r", l.w, rounds[-1].w)
            else:
                check_rounds(w, s, l, rounds, sick, first)
    if getattr(l, "w", None) is not None:
        need(finite(l.w), "not-finite", "w=%r", l.w)
    # and once more, undisturbed
    w.on_infer = None
    rounds[:] = []
    if issubclass(s.base, W.SubgradientSSVM):
        l = s.build()           # keeps its weights, by design
    guard(w, "fit after the stop", lambda: s.fit(l))
    need(W.close(l.w, twin.w, 1e-7, 1e-9), "not-recovered",
         "training again gives w=%r, a fresh learner %r", l.w, twin.w)
    w.stats.nontrivial = bool(stop.fired)


def descent(w, t):
    """SubgradientLatentSSVM against a reference descent."""
    s = make_latent(t, learners=("latent_subgradient",), max_n=5)
    p = s.problem
    jobs = s.cfg["n_jobs"] = t.choice((1, 2, 3, -1), "n_jobs")
    s.cfg["averaging"] = t.choice((None, "linear", "squared"), "averaging")
    s.cfg["break_on_no_constraints"] = not t.draw(2, "go on")
    k = draw_workers(t)
    k.gap = 0
    w.backend = k
    sick = Careless(w, t, p, 0, 0)
    w.on_infer = sick
    w.stats.note = "latent_subgradient on %s|%s; %s" % (
        p.name, s.describe(), k.describe())
    log = []
    l = s.build(logger=lambda who, it: log.append((it, np.array(who.w))))
    w0 = np.array(l.w)
    guard(w, "fit", lambda: s.fit(l))
    with sub_world(w):
        with silence_points():
            ref, epochs, iterates, steps = reference(
                s, w0, k.cpus if jobs == -1 else jobs, jobs != 1)
            obj = objective(p, p.make_model, l.w, s.cfg["C"])
    need(W.close(l.w, ref, 1e-6, 1e-7), "wrong-w", "w=%r, the reference "
         "descent ends at %r", l.w, ref)
    got = [i for i, _ in log]
    need(got == list(range(len(iterates))) + ["final"], "wrong-logging",
         "the logger was called for %s, expected %d epochs", got,
         len(iterates))
    for (i, v), r in zip(log, iterates + [ref]):
        need(W.close(v, r, 1e-6, 1e-7), "wrong-w", "w after epoch %s is %r, "
             "the reference has %r", i, v, r)
    need(len(l.objective_curve_) == len(epochs) + 1 and all(
        rel_close(a, b, 1e-6) for a, b in zip(l.objective_curve_, epochs)),
         "wrong-objective", "objective_curve_ %s, the reference has %s",
         l.objective_curve_, epochs)
    need(rel_close(l.objective_curve_[-1], obj, 1e-6), "wrong-objective",
         "final objective %r, it is %r", l.objective_curve_[-1], obj)
    check_answers_of(w, s, l)
    w.stats.nontrivial = steps > 0


def margin(p, m, x, y, w):
    h = m.latent(x, y, w)
    z = m.loss_augmented_inference(x, h, w, relaxed=True)
    d = m.joint_feature(x, h) - m.joint_feature(x, z)
    return max(0.0, m.loss(h, z) - float(np.dot(w, d))), d


def objective(p, make, w, C):
    m = make()
    m.initialize(p.X, p.Y)
    return C * sum(margin(p, m, x, y, w)[0] for x, y in zip(p.X, p.Y)) \
        + np.dot(w, w) / 2.


def reference(s, w0, jobs, batches):
    """Latent subgradient descent, straight from its definition."""
    p, c = s.problem, s.cfg
    m = p.make_model()
    m.initialize(p.X, p.Y)
    n, C = len(p.X), c["C"]
    rate = C * n if c["learning_rate"] == "auto" else c["learning_rate"]
    groups = [[i] for i in range(n)]
    if batches:
        g = int(np.ceil(n / float(jobs)))
        sizes = [n // g + (1 if i < n % g else 0) for i in range(g)]
        b = np.hstack([[0], np.cumsum(sizes)])
        groups = [list(range(b[i], b[i + 1])) for i in range(g)]
    w, mean = w0.copy(), w0.copy()
    mom = np.zeros_like(w)
    steps = 0
    curve, iterates = [], []
    for epoch in range(c["max_iter"]):
        positive, obj = 0, 0.0
        for g in groups:
            v = np.zeros_like(w)
            for i in g:
                slack, d = margin(p, m, p.X[i], p.Y[i], w)
                positive += slack > 0
                obj += slack
                v += d
            v /= len(g)
            mom = (1 - c["momentum"]) * (v - w / (C * n)) \
                + c["momentum"] * mom
            eff = rate
            if c["decay_exponent"]:
                eff = rate / (steps + float(c.get("decay_t0", 10))) \
                    ** c["decay_exponent"]
            w = w + eff * mom
            rho = {"linear": 2. / (steps + 2.), "squared": 6. * (steps + 1)
                   / ((steps + 2) * (2 * steps + 3)), None: 1.}[
                       c["averaging"]]
            mean = (1 - rho) * mean + rho * w
            steps += 1
        if not positive and c["break_on_no_constraints"]:
            break
        curve.append(C * obj + np.dot(mean, mean) / 2.)
        iterates.append(mean.copy())
    return mean, curve, iterates, steps
