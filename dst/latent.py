"""Latent-variable problems and learners for the simulated runs."""
import itertools

import numpy as np

from pystruct.models.base import StructuredModel

from .workloads import (SimLatentMixin, SimLatentGraph, SimLatentNode,
                        SimLatentGrid, SimLatentDirGrid, SimLatentEdge,
                        Setup, NSlackSSVM, OneSlackSSVM,
                        FrankWolfeSSVM, SubgradientSSVM,
                        SubgradientLatentSSVM, LatentSSVM)


class TabLatent(StructuredModel):
    """A user-defined latent model: x[l, k] is the joint feature of label l
    with latent value k; h = l * K + k."""

    def __init__(self, losses, n_latent, size_joint_feature):
        self.losses = np.asarray(losses, dtype=float)
        self.n_latent = n_latent
        self.size_joint_feature = size_joint_feature
        self.inference_calls = 0

    def initialize(self, X, Y):
        pass

    def label_from_latent(self, h):
        return h // self.n_latent

    def joint_feature(self, x, h):
        return np.array(x[h // self.n_latent, h % self.n_latent])

    def inference(self, x, w, relaxed=None):
        self.inference_calls += 1
        return int(np.argmax(np.dot(x, w).ravel()))

    def loss_augmented_inference(self, x, h, w, relaxed=None):
        self.inference_calls += 1
        s = np.dot(x, w) + self.losses[h // self.n_latent][:, None]
        return int(np.argmax(s.ravel()))

    def latent(self, x, y, w):
        return int(y * self.n_latent + np.argmax(np.dot(x[y], w)))

    def loss(self, h, h_hat):
        return self.losses[h // self.n_latent, h_hat // self.n_latent]

    def base_loss(self, y, y_hat):
        return self.losses[y, y_hat]

    def max_loss(self, y):
        return self.losses.max()

    def init_latent(self, X, Y):
        return [int(y) * self.n_latent + (i % self.n_latent)
                for i, y in enumerate(Y)]


class SimTabLatent(SimLatentMixin, TabLatent):
    pass


class LatentProblem:
    batch = False
    exact = True
    integral = True
    labels = None

    def __init__(self, name, make_model, X, Y, Xt, H_init=None, note="",
                 states=None, hidden=None):
        self.name, self.make_model = name, make_model
        self.states = states        # latent states of every label
        self.hidden = hidden        # states of the extra nodes
        self.X, self.Y, self.Xt, self.H_init = X, Y, Xt, H_init
        self.note = note

    def completions(self, x, y):
        """Every latent labelling that stands for y."""
        if self.name == "ltab":
            return list(self.states[y])
        y = np.asarray(y)
        if self.hidden is None:
            c = itertools.product(*[self.states[v] for v in y.ravel()])
            return [np.array(h).reshape(y.shape) for h in c]
        n_hidden = x[-1]
        return [np.hstack([y, h]).astype(int) for h in itertools.product(
            self.hidden, repeat=n_hidden)]

    def labels(self, x, h):
        """Every latent labelling."""
        if self.name == "ltab":
            return [s for st in self.states for s in st]
        if self.hidden is None:
            every = [s for st in self.states for s in st]
            h = np.asarray(h)
            return [np.array(c).reshape(h.shape) for c in itertools.product(
                every, repeat=h.size)]
        vis = len(np.asarray(h)) - x[-1]
        return [np.hstack([v, c]).astype(int) for v in itertools.product(
            self.states, repeat=vis) for c in itertools.product(
                self.hidden, repeat=x[-1])]

    def label(self, x, h):
        """The observed part of a latent labelling."""
        if self.hidden is not None:
            return np.asarray(h)[:len(h) - x[-1]]
        back = {s: y for y, st in enumerate(self.states) for s in st}
        if self.name == "ltab":
            return back[int(h)]
        h = np.asarray(h)
        return np.array([back[int(v)] for v in h.ravel()]).reshape(h.shape)

    def __repr__(self):
        return "%s n=%d %s" % (self.name, len(self.X), self.note)


FAMILIES = ("ltab", "lgraph", "lnode", "lgrid", "ledge", "ldirgrid")


def make_problem(t, families=FAMILIES, max_n=5, min_n=2):
    fam = t.choice(families, "latent model")
    n = t.between(min_n, max_n, "samples")
    rng = np.random.RandomState(t.draw(1 << 16, "data seed"))
    noise = t.choice((0.5, 0.05, 1.5), "noise")
    if fam == "ltab":
        L, K, d = (t.between(2, 4, "labels"), t.between(2, 3, "latent"),
                   t.between(2, 5, "features"))
        losses = np.round(rng.uniform(0.2, 2, size=(L, L)), 3)
        np.fill_diagonal(losses, 0)
        X = [rng.normal(size=(L, K, d)) for _ in range(n)]
        w0 = rng.normal(size=d)
        Y = [int(np.argmax((x.dot(w0) + noise * rng.normal(size=(L, K)))
                           .max(axis=1))) for x in X]
        Xt = [rng.normal(size=(L, K, d)) for _ in range(4)]
        return LatentProblem("ltab", lambda: SimTabLatent(losses, K, d),
                             X, Y, Xt, note="L=%d K=%d d=%d" % (L, K, d),
                             states=[list(range(l * K, l * K + K))
                                     for l in range(L)])
    if fam == "lgraph":
        nodes, d, L = 3, t.between(1, 2, "features"), 2
        per = t.choice((2, [1, 2]), "states per label")
        per_l = [2, 2] if per == 2 else per
        first = np.hstack([[0], np.cumsum(per_l)])
        Y = [rng.randint(2, size=nodes) for _ in range(n)]
        Y[0][:2] = [0, 1]
        Y[1][:2] = [1, 0]
        H = [np.array([first[y] + rng.randint(per_l[y]) for y in ys])
             for ys in Y]
        S = int(np.sum(per_l))
        base = rng.normal(size=(S, d))
        chain = np.array([[i, i + 1] for i in range(nodes - 1)])
        X = [(base[h] + noise * rng.normal(size=(nodes, d)), chain)
             for h in H]
        Xt = [(rng.normal(size=(nodes, d)), chain) for _ in range(3)]
        H0 = [np.array([first[y] + rng.randint(per_l[y]) for y in ys])
              for ys in Y]
        return LatentProblem(
            "lgraph", lambda: SimLatentGraph(
                n_labels=L, n_features=d, n_states_per_label=per,
                inference_method="max-product"), X, Y, Xt, H0,
            "d=%d per=%s" % (d, per), states=[
                list(range(first[l], first[l] + per_l[l]))
                for l in range(L)])
    if fam == "lnode":
        vis, d, L, K = 2, t.between(1, 2, "features"), 2, 2
        edges = np.array([[i, vis] for i in range(vis)])
        Y = [rng.randint(L, size=vis) for _ in range(n)]
        Y[0][:] = [0, 1]
        base = rng.normal(size=(L, d))
        X = [(base[y] + noise * rng.normal(size=(vis, d)), edges, 1)
             for y in Y]
        Xt = [(rng.normal(size=(vis, d)), edges, 1) for _ in range(3)]
        H0 = [np.hstack([y, L + rng.randint(K, size=1)]) for y in Y]
        return LatentProblem(
            "lnode", lambda: SimLatentNode(
                n_labels=L, n_features=d, n_hidden_states=K,
                inference_method="max-product"), X, Y, Xt, H0, "d=%d" % d,
            states=list(range(L)), hidden=list(range(L, L + K)))
    if fam == "ledge":
        # two hidden nodes in the middle, edge features
        vis, L, K, d = 3, 2, 2, t.between(1, 2, "features")
        ne = t.between(1, 2, "edge features")
        edges = np.array([[0, 3], [1, 3], [3, 4], [2, 4]])
        Y = [rng.randint(L, size=vis) for _ in range(n)]
        Y[0][:2] = [0, 1]
        base = rng.normal(size=(L, d))

        def x(y):
            f = base[y] + noise * rng.normal(size=(vis, d))
            return f, edges, rng.normal(size=(4, ne)) + .5, 2
        X = [x(y) for y in Y]
        Xt = [x(rng.randint(L, size=vis)) for _ in range(3)]
        H0 = [np.hstack([y, L + rng.randint(K, size=2)]) for y in Y]
        return LatentProblem(
            "ledge", lambda: SimLatentEdge(
                n_labels=L, n_features=d, n_edge_features=ne,
                n_hidden_states=K, inference_method="max-product"),
            X, Y, Xt, H0, "d=%d edge features=%d" % (d, ne),
            states=list(range(L)), hidden=list(range(L, L + K)))
    d = 1
    Y = rng.randint(2, size=(n, 2, 2))
    Y[0] = [[0, 1], [1, 0]]
    X = (Y * 2. - 1)[:, :, :, None] + noise * rng.normal(size=(n, 2, 2, d))
    Xt = rng.normal(size=(3, 2, 2, d))
    H0 = Y * 2 + rng.randint(2, size=Y.shape)
    cls = SimLatentGrid if fam == "lgrid" else SimLatentDirGrid
    return LatentProblem(
        fam, lambda: cls(
            n_labels=2, n_features=d, n_states_per_label=2,
            inference_method=("ad3", {"branch_and_bound": True})),
        X, Y, Xt, H0, "2x2", states=[[0, 1], [2, 3]])


class LatentSetup(Setup):
    def __init__(self, problem, kind, cfg, base=None, latent_iter=3, w0=None):
        Setup.__init__(self, problem, kind, None, cfg)
        self.base, self.latent_iter, self.w0 = base, latent_iter, w0

    def build(self, **over):
        cfg = dict(self.cfg)
        logger = over.pop("outer_logger", None)
        cfg.update(over)
        m = self.problem.make_model()
        if self.kind == "latent_subgradient":
            l = SubgradientLatentSSVM(model=m, **cfg)
            rng = np.random.RandomState(self.w0)
            p = self.problem
            m.initialize(p.X, p.Y)
            l.w = rng.normal(size=m.size_joint_feature)
            return l
        return LatentSSVM(self.base(model=m, **cfg),
                          latent_iter=self.latent_iter, logger=logger)

    def fit(self, learner, **kw):
        p = self.problem
        if self.kind != "latent_subgradient" and p.H_init is not None:
            kw.setdefault("H_init", p.H_init)
        return learner.fit(p.X, p.Y, **kw)

    def describe(self):
        return "%s%s(%s) on %r" % (
            self.kind, "[%s]" % self.base.__name__ if self.base else "",
            ", ".join("%s=%r" % kv for kv in sorted(self.cfg.items())
                      if kv[0] != "logger"), self.problem)


LEARNERS = ("latent_subgradient", "latent_ssvm")
BASES = (OneSlackSSVM, NSlackSSVM, SubgradientSSVM)


def make_latent(t, learners=LEARNERS, families=FAMILIES, bases=BASES,
                max_n=5):
    kind = t.choice(learners, "latent learner")
    p = make_problem(t, families, max_n)
    C = t.choice((1.0, 0.1, 10.0), "C")
    if kind == "latent_subgradient":
        cfg = dict(C=C, max_iter=t.choice((5, 2, 1), "max_iter"),
                   learning_rate=t.choice((0.1, 0.01, "auto"), "rate"),
                   momentum=t.choice((0.0, 0.5), "momentum"),
                   decay_exponent=t.choice((1, 0, 0.5), "decay"),
                   averaging=t.choice((None, "linear"), "averaging"))
        if cfg["learning_rate"] == "auto" and cfg["decay_exponent"] == 0:
            cfg["learning_rate"] = 0.1
        if t.chance(30, "rarer knobs"):
            cfg.update(decay_t0=t.choice((1, 3, 100), "decay_t0"),
                       break_on_no_constraints=bool(t.draw(2, "break")))
        return LatentSetup(p, kind, cfg, w0=t.draw(100, "w0"))
    base = t.choice(bases, "base")
    cfg = dict(C=C)
    if base is NSlackSSVM:
        cfg.update(max_iter=t.choice((50, 3), "max_iter"), tol=1e-3,
                   batch_size=t.choice((100, 2), "batch_size"))
    elif base is OneSlackSSVM:
        cfg.update(max_iter=t.choice((60, 3), "max_iter"), tol=1e-3,
                   inference_cache=t.choice((0, 5), "cache"))
    else:
        cfg.update(max_iter=t.choice((5, 2), "max_iter"),
                   learning_rate=0.05)
    return LatentSetup(p, kind, cfg, base, t.choice((3, 1, 5),
                                                    "latent_iter"))
