"""C11: randomness is reproducible, isolated and used as documented."""
import copy
import random

import numpy as np

from dst import workloads as W
from dst import latent as LT
from dst.workloads import close
from dst.common import (Reject, Violation, Workers, deep, draw_workers,
                        finite, guard, need, same_data, sub_world)
from dst.core import silence_points
from pystruct import datasets as D

TIERS = {"quick": {"runs": 4000, "wall": 80, "min": 500},
         "thorough": {"runs": 80000, "wall": 780, "min": 2000}}
RULE = ("a run executes the same training (or generates the same data set) "
        "twice under different prior states of the global random generator, "
        "different OS entropy and a different clock, while other code "
        "in the process draws from the global generator between operations, "
        "and compares; or records which sample every inference of a "
        "training visits; non-trivial when the comparison was made")
REAL = ["pystruct learners, models, inference, data set generators",
        "numpy and sklearn random generators", "cvxopt QP/LP", "ad3"]
STUB = ["OS entropy", "foreign use of the global generator", "clock",
        "joblib worker pool"]


def run(w):
    t = w.tape
    {"isolated": isolated, "global": shared, "visits": visits,
     "datasets": generators, "latent init": latent_init}[
        t.choice(("isolated", "visits", "global", "datasets", "latent init"),
                 "scenario")](w, t)


def global_state():
    s = np.random.get_state()
    return s[0], s[1].copy(), s[2], s[3], s[4]


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


class Foreign:
    """Other code using the global generators between operations."""

    def __init__(self, t, seed, rate):
        self.t, self.rate = t, rate
        np.random.seed(seed)
        random.seed(seed)
        self.mirror = np.random.RandomState(seed)
        self.draws = 0
        self.busy = False

    def __call__(self, world, kind, detail):
        k = world.backend
        if self.busy or (k is not None and k.in_worker
                         and k.mode == "threads"):
            return
        if self.t.chance(self.rate, "foreign draw"):
            self.busy = True
            n = self.t.between(1, 3, "numbers")
            np.random.uniform(size=n)
            random.random()
            self.mirror.uniform(size=n)
            self.draws += 1
            world.fault("foreign draw from the global generator")
            self.busy = False


def train(world, s, what, **over):
    l = s.build(**over)
    guard(world, what, lambda: s.fit(l))
    pred = guard(world, "predict", lambda: l.predict(s.problem.Xt))
    return l, pred


def equal(a, b, cls, what):
    (la, pa), (lb, pb) = a, b
    need(close(la.w, lb.w, 1e-9, 1e-12), cls, "%s: w=%r and %r", what,
         la.w, lb.w)
    if hasattr(la, "base_ssvm"):
        la, lb = la.base_ssvm, lb.base_ssvm
    ca, cb = W.curves(la), W.curves(lb)
    need(sorted(ca) == sorted(cb) and all(
        close(ca[x], cb[x], 1e-9, 1e-10) for x in ca), cls,
        "%s: curves %r and %r", what, ca, cb)
    need(len(pa) == len(pb) and all(W.same_labels(x, y)
                                    for x, y in zip(pa, pb)), cls,
         "%s: predictions %r and %r", what, pa, pb)


def isolated(w, t):
    """No dependence on the global generator, and no use of it."""
    if t.chance(15, "latent"):
        # (the latent subgradient learner draws initial weights)
        s = LT.make_latent(t, learners=("latent_ssvm",))
        if s.kind == "latent_ssvm" and s.problem.H_init is None \
                and s.problem.name != "ltab":
            raise Reject("needs init_latent")
    else:
        s = W.make_setup(t)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 15)
    jobs = 1 if s.kind in ("fw", "fwbatch") else t.choice((1, 2), "n_jobs")
    if s.kind == "subgradient" and jobs != 1:
        s.cfg["batch_size"] = None
    s.cfg["n_jobs"] = jobs
    k = draw_workers(t)
    k.gap = 0
    instance = s.kind in ("fw", "fwbatch") and t.draw(2, "RandomState")
    seed = s.cfg.get("random_state")
    w.stats.note = "%s on %s|isolated%s; %s; %s" % (
        s.kind, s.problem.name, " RandomState instance" if instance else "",
        s.describe(), k.describe())

    def over():
        return {"random_state": np.random.RandomState(seed)} if instance \
            else {}
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        np.random.seed(t.draw(1000, "global seed 1"))
        before = global_state()
        a = train(r, s, "fit", **over())
        need(same_state(before, global_state()), "global-state",
             "training used the global random generator")
    w.backend = k
    w.entropy = random.Random(t.draw(1000, "entropy"))
    w.clock.offset = t.choice((1e9, 3e9), "epoch")
    f = Foreign(t, 1000 + t.draw(1000, "global seed 2"),
                t.choice((10, 50), "foreign rate"))
    w.hooks.append(f)
    b = train(w, s, "fit", **over())
    w.hooks.remove(f)
    need(same_state(f.mirror.get_state(), global_state()), "global-state",
         "training used the global random generator")
    equal(a, b, "not-isolated", "the global generator makes a difference")
    w.stats.nontrivial = True


def shared(w, t):
    """Learners that use the global generator: the same seed, the same
    result."""
    kind = t.choice(("fw", "shuffle", "latent_subgradient", "latent_ssvm"),
                    "learner")
    with_pool = False
    if kind == "fw":
        s = W.make_setup(t, learners=("fw",))
        s.cfg["random_state"] = None
        s.cfg["sample_method"] = t.choice(("perm", "rnd"), "sampling")
        s.cfg["n_jobs"] = 1
    elif kind == "shuffle":
        s = W.make_setup(t, learners=("subgradient",))
        s.cfg["shuffle"] = True
        s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
        if s.cfg["n_jobs"] != 1:
            s.cfg["batch_size"] = None
            with_pool = True
    else:
        s = LT.make_latent(t, learners=(kind,))
        s.cfg["n_jobs"] = 1
    build = s.build
    if kind == "latent_subgradient":
        def build(**over):
            return W.SubgradientLatentSSVM(model=s.problem.make_model(),
                                           **s.cfg)

    def go(world):
        l = build()
        p = s.problem
        # no H_init: the model initialises the latent variables
        guard(world, "fit", lambda: l.fit(p.X, p.Y))
        return l, guard(world, "predict", lambda: l.predict(p.Xt))
    s_note = s.describe()
    w.stats.note = "%s on %s|global generator; %s" % (s.kind, s.problem.name,
                                                      s_note)
    seed = t.draw(1000, "global seed")
    k = draw_workers(t) if with_pool else Workers(None)
    if with_pool:
        k.gap = 0
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        np.random.seed(seed)
        a = go(r)
        after = global_state()
    w.backend = k
    w.entropy = random.Random(t.draw(1000, "entropy"))
    w.fault("different OS entropy")
    random.seed(t.draw(1000, "python seed"))
    w.clock.offset = t.choice((1e9, 3e9), "epoch")
    np.random.seed(seed)
    b = go(w)
    equal(a, b, "not-reproducible", "same seed, different results")
    need(same_state(after, global_state()), "not-reproducible",
         "the generator ends in different states")
    if kind == "fw":
        # None means numpy's global generator
        with sub_world(w) as r:
            s.cfg["random_state"] = np.random.RandomState(seed)
            np.random.seed(seed + 1)
            c = go(r)
        equal(a, c, "not-reproducible", "random_state=None after seed(%d) "
              "and RandomState(%d) differ" % (seed, seed))
    w.stats.nontrivial = True


# -- visits -----------------------------------------------------------------------
class Visits:
    """Which sample does each inference see?"""

    def __init__(self, p, w):
        self.p, self.w = p, w
        self.kind = "lai"
        self.seq = []

    def find(self, x, y):
        hit = [i for i in range(len(self.p.X))
               if same_data(as_np(self.p.X[i]), as_np(x))]
        need(hit, "not-a-sample", "inference on %r, which is no sample", x)
        if y is not None:
            pair = [i for i in hit if same_data(as_np(self.p.Y[i]),
                                                as_np(y))]
            need(pair, "wrong-pair", "sample %d is trained with label %r, "
                 "not with %r", hit[0], y, self.p.Y[hit[0]])
            hit = pair
        return hit[0]

    def __call__(self, world, model, kind, n, x, y, w, call):
        if world is self.w and kind == self.kind:
            if self.p.batch and np.ndim(x) == 2:
                for i in range(len(x)):
                    self.seq.append(self.find(x[i], None if y is None
                                              else y[i]))
            else:
                self.seq.append(self.find(x, y))
        return call()


def as_np(v):
    if isinstance(v, (tuple, list)) and not np.isscalar(v[0]):
        return tuple(as_np(e) for e in v)
    return np.asarray(v)


def visits(w, t):
    kind = t.choice(("fw", "subgradient", "perceptron"), "learner")
    p = W.make_problem(t, max_n=8, min_n=2)
    n = len(p.X)
    for i in range(n):
        for j in range(i):
            if same_data(as_np(p.X[i]), as_np(p.X[j])):
                raise Reject("equal samples")
    s = W.make_setup(t, problem=p, learners=(kind,))
    if s.kind != kind:
        raise Reject("no perceptron with rescale_C")
    epochs = t.between(1, 6, "epochs")
    s.cfg.update(max_iter=epochs, n_jobs=1)
    s.cfg.pop("show_loss_every", None)
    per, tail, random_order = n, n, False
    if kind == "fw":
        s.cfg["check_dual_every"] = 0
        method = s.cfg["sample_method"]
        if method == "rnd" and t.draw(2, "long"):
            epochs = s.cfg["max_iter"] = 40
        s.cfg["random_state"] = t.choice((None, s.cfg["random_state"]),
                                         "random_state")
    elif kind == "subgradient":
        s.cfg["shuffle"] = bool(t.draw(2, "shuffle"))
        s.cfg["break_on_no_constraints"] = False
        method = "perm" if s.cfg["shuffle"] else "seq"
        per = 2 * n
    else:
        method, tail = "seq", 0
    w.stats.note = "%s on %s|visits, %s; %s" % (kind, p.name, method,
                                                s.describe())
    v = Visits(p, w)
    if kind == "perceptron":
        v.kind = "infer"
    w.on_infer = v
    f = Foreign(t, t.draw(1000, "global seed"),
                t.choice((0, 20), "foreign rate"))
    w.hooks.append(f)
    data = deep(p.X), deep(p.Y)
    l = s.build()
    guard(w, "fit", lambda: s.fit(l))
    w.on_infer = None
    w.hooks.remove(f)
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    seq = v.seq
    if kind == "perceptron":
        need(len(seq) % n == 0 and n <= len(seq) <= n * epochs,
             "wrong-visits", "%d inferences for %d samples", len(seq), n)
        epochs = len(seq) // n
    need(len(seq) == epochs * per + tail, "wrong-visits",
         "%d inferences in %d passes over %d samples, expected %d",
         len(seq), epochs, n, epochs * per + tail)
    orders = [tuple(seq[e * per:e * per + n]) for e in range(epochs)]
    every = tuple(range(n))
    for e, o in enumerate(orders):
        if method == "seq":
            need(o == every, "wrong-visits", "pass %d visits the samples in "
                 "order %s", e, o)
        elif method == "perm":
            need(tuple(sorted(o)) == every, "wrong-visits", "pass %d visits "
                 "%s: not every sample exactly once", e, o)
    if method == "rnd" and n * (1 - 1. / n) ** (n * epochs) < 1e-9:
        w.probe("random visits reach every sample")
        seen = set(i for o in orders for i in o)
        need(len(seen) == n, "wrong-visits", "samples %s are never visited "
             "in %d steps", sorted(set(every) - seen), n * epochs)
    if method != "seq" and n >= 6 and epochs >= 4:
        w.probe("random orders compared")
        need(len(set(orders)) > 1, "not-random", "%d passes in the same "
             "order %s", epochs, orders[0])
    if tail:
        need(sorted(seq[-n:]) == list(every), "wrong-visits",
             "the final objective is computed over %s", seq[-n:])
    w.stats.nontrivial = True


# -- generators ----------------------------------------------------------------------
# name -> (seed argument or None, arguments to draw)
GEN = {
    "generate_blocks": ("seed", {"n_samples": (1, 3, 10),
                                 "noise": (1.5, 0.1)}),
    "generate_checker": (None, {"n_samples": (1, 4), "noise": (1.5, .3)}),
    "generate_big_checker": (None, {"n_samples": (1, 5), "noise": (.5, 2.),
                                    "n_fields": (2, 3),
                                    "field_size": (1, 3)}),
    "make_simple_2x2": ("seed", {"n_flips": (4, 0, 9),
                                 "n_samples": (3, 20)}),
    "generate_easy": ("seed", {"n_samples": (2, 5), "noise": (5, 1),
                               "total_size": (8, 10)}),
    "generate_bars": ("random_seed", {"n_samples": (4, 1, 2, 8), "noise": (5, 2),
                                      "separate_labels": (True,)}),
    "generate_crosses": ("seed", {"n_samples": (2, 5), "noise": (30, 3),
                                  "n_crosses": (1, 2)}),
    "generate_crosses_explicit": (None, {"n_samples": (2, 5),
                                         "noise": (30, 4)}),
    "generate_blocks_multinomial": ("seed", {"n_samples": (2, 6),
                                             "noise": (.5, 2.),
                                             "size_x": (12, 6)}),
    "generate_checker_multinomial": ("global", {"n_samples": (2, 6),
                                                "noise": (.5, 2.)}),
}


def generators(w, t):
    name = t.choice(sorted(GEN), "generator")
    seed_arg, args = GEN[name]
    kw = {k: t.choice(v, k) for k, v in sorted(args.items())}
    fn = getattr(D, name)
    seed = t.draw(50, "seed")
    if seed_arg == "seed" and name == "generate_blocks_multinomial" \
            and t.draw(2, "global"):
        seed_arg = "global"
    if seed_arg not in (None, "global"):
        kw[seed_arg] = seed
    w.stats.note = "data set|%s(%r)" % (name, kw)
    glob = seed_arg == "global"

    def call(prior):
        np.random.seed(prior)
        w.point("generate")
        out = guard(w, name, lambda: fn(**kw))
        need(isinstance(out, tuple) and len(out) == 2, "wrong-data",
             "%s returned %r", name, type(out))
        return out
    p1 = t.draw(1000, "prior 1")
    p2 = 1000 + t.draw(1000, "prior 2")
    a = call(p1)
    keep = deep(a)
    check_data(name, a)
    for v in a:                      # the caller may do what they like
        for z in ([v] if isinstance(v, np.ndarray) else v):
            z += 1
    w.fault("the caller modified the first data set")
    w.entropy = random.Random(seed)
    b = call(p1 if glob else p2)
    need(same_data(keep, b), "not-reproducible", "%s gives another data set "
         "under another state of the global generator", name)
    # the seed matters
    if glob:
        c = call(p2)
    elif seed_arg:
        kw[seed_arg] = seed + 1
        c = call(p1)
    else:
        c = None
    if c is not None and kw.get("n_flips", 1):
        need(not same_data(keep, c), "not-random", "%s gives the same data "
             "set for another seed", name)
    w.stats.nontrivial = True


def check_data(name, out):
    X, Y = out
    need(len(X) == len(Y), "wrong-data", "%s: %d inputs, %d labellings",
         name, len(X), len(Y))
    for x, y in zip(X, Y):
        x, y = np.asarray(x), np.asarray(y)
        need(finite(x), "wrong-data", "%s: inputs not finite", name)
        need(y.dtype.kind in "iu" and y.min() >= 0, "wrong-data",
             "%s: labels %s of type %s", name, np.unique(y), y.dtype)
        need(x.shape[:2] == y.shape, "wrong-data",
             "%s: input shape %s, label shape %s", name, x.shape, y.shape)


# -- latent initialisation ---------------------------------------------------------
def latent_init(w, t):
    p = LT.make_problem(t, families=("lgraph", "lgrid", "lnode", "ledge",
                                       "ldirgrid"), max_n=6)
    w.stats.note = "init_latent on %s|%r" % (p.name, p)
    seed = t.draw(1000, "global seed")
    flat = np.hstack([np.ravel(y) for y in p.Y])
    if p.name not in ("lnode", "ledge") and min(np.bincount(flat, minlength=2)) < 2:
        raise Reject("fewer nodes of a label than latent states")

    def go(world, entropy):
        m = p.make_model()
        with silence_points():
            m.initialize(p.X, p.Y)
        np.random.seed(seed)
        world.entropy = random.Random(entropy)
        world.point("init_latent")
        return m, guard(world, "init_latent",
                        lambda: m.init_latent(p.X, p.Y))
    with sub_world(w) as r:
        _, a = go(r, 1)
    data = deep(p.X), deep(p.Y)
    m, b = go(w, 2)
    w.fault("different OS entropy")
    need(len(a) == len(b) == len(p.X), "wrong-latent", "%d latent "
         "labellings for %d samples", len(b), len(p.X))
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    for h, g, y in zip(a, b, p.Y):
        need(np.array_equal(h, g), "not-reproducible", "same seed, latent "
             "states %r and %r", h, g)
        got = m.label_from_latent(g)
        need(np.array_equal(np.asarray(got), np.asarray(y)), "wrong-latent",
             "latent states %r mean labels %r, not %r", g, got, y)
    w.stats.nontrivial = True
