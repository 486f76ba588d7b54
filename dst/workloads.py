"""Problems (models with data) and learners for the simulated runs.

The models are the real pystruct models behind a thin seam (SimMixin), plus one
user-defined model (TabModel) as the documentation invites users to write."""
import itertools
import threading

import numpy as np

from pystruct.models import (BinaryClf, MultiClassClf, MultiLabelClf, ChainCRF,
                             GraphCRF, EdgeFeatureGraphCRF, GridCRF,
                             DirectionalGridCRF, LatentGraphCRF,
                             LatentNodeCRF, LatentGridCRF,
                             LatentDirectionalGridCRF,
                             EdgeFeatureLatentNodeCRF,
                             NodeTypeEdgeFeatureGraphCRF)
from pystruct.models.base import StructuredModel
from pystruct.learners import (NSlackSSVM, OneSlackSSVM, FrankWolfeSSVM,
                               SubgradientSSVM, StructuredPerceptron,
                               SubgradientLatentSSVM, LatentSSVM)

from .core import World, silence_points

_depth = threading.local()


def _seam(model, kind, n, x, y, w, call):
    world = World.current
    if world is None or world.quiet_points:
        return call()
    d = getattr(_depth, "v", 0)
    if d:
        return call()
    _depth.v = d + 1
    try:
        if kind in ("infer", "lai", "latent"):
            world.samples += n
        world.point(kind, n)
        hook = world.on_infer
        if hook is not None and kind in ("infer", "lai", "latent"):
            return hook(world, model, kind, n, x, y, w, call)
        return call()
    finally:
        _depth.v = d


class SimMixin(object):
    """Announces every call of the model interface to the simulated world."""

    def inference(self, x, w, *a, **k):
        return _seam(self, "infer", 1, x, None, w,
                     lambda: super(SimMixin, self).inference(x, w, *a, **k))

    def loss_augmented_inference(self, x, y, w, *a, **k):
        return _seam(self, "lai", 1, x, y, w, lambda: super(
            SimMixin, self).loss_augmented_inference(x, y, w, *a, **k))

    def joint_feature(self, x, y, *a, **k):
        return _seam(self, "psi", 1, x, y, None, lambda: super(
            SimMixin, self).joint_feature(x, y, *a, **k))

    def loss(self, y, y_hat):
        return _seam(self, "loss", 1, None, y, None,
                     lambda: super(SimMixin, self).loss(y, y_hat))


class SimBatchMixin(SimMixin):
    """For the models that vectorise the batch methods."""

    def batch_inference(self, X, w, *a, **k):
        return _seam(self, "infer", len(X), X, None, w, lambda: super(
            SimBatchMixin, self).batch_inference(X, w, *a, **k))

    def batch_loss_augmented_inference(self, X, Y, w, *a, **k):
        return _seam(self, "lai", len(X), X, Y, w, lambda: super(
            SimBatchMixin, self).batch_loss_augmented_inference(
                X, Y, w, *a, **k))

    def batch_joint_feature(self, X, Y, *a, **k):
        return _seam(self, "psi", len(X), X, Y, None, lambda: super(
            SimBatchMixin, self).batch_joint_feature(X, Y, *a, **k))

    def batch_loss(self, Y, Y_hat):
        return _seam(self, "loss", len(Y), None, Y, None, lambda: super(
            SimBatchMixin, self).batch_loss(Y, Y_hat))


class SimLatentMixin(SimMixin):
    def latent(self, x, y, w):
        return _seam(self, "latent", 1, x, y, w,
                     lambda: super(SimLatentMixin, self).latent(x, y, w))


class TabModel(StructuredModel):
    """A user-defined model: x is the table of joint features of every label,
    y is the index of a label, the loss is a fixed table."""

    def __init__(self, losses, size_joint_feature):
        self.losses = np.asarray(losses, dtype=float)
        self.size_joint_feature = size_joint_feature
        self.inference_calls = 0

    def initialize(self, X, Y):
        pass

    def joint_feature(self, x, y):
        return np.array(x[y])

    def inference(self, x, w, relaxed=None):
        self.inference_calls += 1
        return int(np.argmax(np.dot(x, w)))

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        self.inference_calls += 1
        return int(np.argmax(np.dot(x, w) + self.losses[y]))

    def loss(self, y, y_hat):
        return self.losses[y, y_hat]

    def max_loss(self, y):
        return self.losses[y].max()


class SimTab(SimMixin, TabModel):
    pass


class SimBinary(SimBatchMixin, BinaryClf):
    pass


class SimMulti(SimBatchMixin, MultiClassClf):
    pass


class SimMultiLabel(SimMixin, MultiLabelClf):
    pass


class SimChain(SimMixin, ChainCRF):
    pass


class SimGraph(SimMixin, GraphCRF):
    pass


class SimEdge(SimMixin, EdgeFeatureGraphCRF):
    pass


class SimGrid(SimMixin, GridCRF):
    pass


class SimDirGrid(SimMixin, DirectionalGridCRF):
    pass


class SimNodeType(SimMixin, NodeTypeEdgeFeatureGraphCRF):
    pass


class SimLatentGraph(SimLatentMixin, LatentGraphCRF):
    pass


class SimLatentNode(SimLatentMixin, LatentNodeCRF):
    pass


class SimLatentGrid(SimLatentMixin, LatentGridCRF):
    pass


class SimLatentDirGrid(SimLatentMixin, LatentDirectionalGridCRF):
    pass


class SimLatentEdge(SimLatentMixin, EdgeFeatureLatentNodeCRF):
    pass


class Problem:
    """A model factory with training and test data."""

    def __init__(self, name, make_model, X, Y, Xt, labels=None, exact=True,
                 batch=False, note="", integral=True):
        self.name = name
        self.make_model = make_model
        self.X, self.Y, self.Xt = X, Y, Xt
        self.labels = labels      # labels(x, y) -> every labelling, or None
        self.exact = exact        # loss-augmented inference is exact
        self.batch = batch        # vectorised batch methods
        self.integral = integral  # inference returns integral labellings
        self.note = note

    def __repr__(self):
        return "%s n=%d %s" % (self.name, len(self.X), self.note)


def _all_labels(n_nodes, n_states):
    return [np.array(y) for y in itertools.product(range(n_states),
                                                   repeat=n_nodes)]


def _contiguous(Y):
    """Relabel so that exactly 0..k-1 occur."""
    flat = np.hstack([y.ravel() for y in Y])
    u = np.unique(flat)
    return [np.searchsorted(u, y) for y in Y], len(u)


def _tree_edges(rng, n):
    if n < 2:
        return np.zeros((0, 2), dtype=np.int64)
    return np.array([[rng.randint(i), i] for i in range(1, n)],
                    dtype=np.int64)


def _noisy_features(rng, y, n_states, d, noise):
    base = np.linspace(-1, 1, n_states * d).reshape(n_states, d)
    base = np.take(base, rng.permutation(n_states), axis=0)
    return base[y] + noise * rng.normal(size=(len(y), d))


FAMILIES = ("tab", "binary", "multi", "multilabel", "chain", "tree", "loopy",
            "edge", "grid", "dirgrid", "typed")
SCALAR = ("binary", "multi", "tab")


def make_problem(t, families=FAMILIES, max_n=6, min_n=1, rescale=True):
    fam = t.choice(families, "model")
    n = t.between(min_n, max_n, "samples")
    if max_n >= 5 and fam in ("tab", "binary", "multi", "chain") \
            and t.chance(10, "more samples"):
        n = t.between(7, 25, "samples")
    rng = np.random.RandomState(t.draw(1 << 16, "data seed"))
    noise = t.choice((0.5, 0.05, 1.5), "noise")
    if fam == "tab":
        L, d = t.between(2, 5, "labels"), t.between(1, 4, "features")
        losses = np.round(rng.uniform(0.2, 2.0, size=(L, L)), 3)
        np.fill_diagonal(losses, 0)
        if t.chance(20, "small losses"):
            losses = losses * .05
        X = [rng.normal(size=(L, d)) for _ in range(n)]
        w0 = rng.normal(size=d)
        Y = [int(np.argmax(x.dot(w0) + noise * rng.normal(size=L)))
             for x in X]
        Xt = [rng.normal(size=(L, d)) for _ in range(4)]
        return Problem("tab", lambda: SimTab(losses, d), X, Y, Xt,
                       labels=lambda x, y: list(range(L)),
                       note="L=%d d=%d" % (L, d))
    if fam == "binary":
        d = t.between(1, 4, "features")
        n = max(n, 2)
        Y = rng.choice([-1, 1], size=n)
        Y[0], Y[1] = -1, 1
        X = rng.normal(size=(n, d)) * noise + Y[:, None] * 0.7
        Xt = rng.normal(size=(4, d))
        return Problem("binary", lambda: SimBinary(), X, Y, Xt,
                       labels=lambda x, y: [-1, 1], batch=True,
                       note="d=%d" % d)
    if fam == "multi":
        d, k = t.between(1, 3, "features"), t.between(2, 4, "classes")
        n = max(n, k)
        Y = np.hstack([np.arange(k), rng.randint(k, size=n - k)])
        Y = Y[rng.permutation(n)]
        X = _noisy_features(rng, Y, k, d, noise)
        Xt = rng.normal(size=(4, d))
        cw = None
        resc = False
        if t.chance(25, "class weights"):
            cw = list(np.round(rng.uniform(0.5, 2, size=k), 2))
            resc = bool(rescale and t.draw(2, "rescale_C"))
        return Problem(
            "multi", lambda: SimMulti(class_weight=cw, rescale_C=resc),
            X, Y, Xt, labels=lambda x, y: list(range(k)), batch=True,
            note="d=%d k=%d%s%s" % (d, k, " weights" if cw else "",
                                    " rescale_C" if resc else ""))
    if fam == "multilabel":
        d, k = t.between(1, 3, "features"), t.between(2, 3, "labels")
        kind = t.choice(("none", "chain", "full"), "edges")
        n = max(n, 2)
        Y = rng.randint(2, size=(n, k))
        Y[0], Y[1] = 0, 1
        X = np.hstack([Y[:, :1] * 1.0 - .5 + noise * rng.normal(size=(n, 1))
                       for _ in range(d)])
        Xt = rng.normal(size=(4, d))
        if kind == "none":
            edges, meth = None, "unary"
        elif kind == "chain":
            edges = np.array([[i, i + 1] for i in range(k - 1)])
            meth = "max-product"
        else:
            edges = np.array(list(itertools.combinations(range(k), 2)))
            meth = ("ad3", {"branch_and_bound": True}) if k > 2 \
                else "max-product"
        return Problem(
            "multilabel", lambda: SimMultiLabel(edges=edges,
                                                inference_method=meth),
            X, Y, Xt, labels=lambda x, y: _all_labels(k, 2),
            note="k=%d %s" % (k, kind), integral=(meth != "ad3"))
    if fam in ("grid", "dirgrid"):
        k, d = 2, t.between(1, 2, "features")
        h, wd = t.choice(((1, 2), (2, 2), (1, 3), (2, 3)), "grid")
        vary = [(h, wd)]
        if t.draw(2, "grids of different sizes"):
            vary += [(wd, h)] if h != wd else [(1, 2), (2, 1)]
            if h * wd > 2:
                vary.append((1, 2))
        Y = [rng.randint(k, size=vary[i and rng.randint(len(vary))])
             for i in range(n)]
        Y[0].flat[0], Y[0].flat[1] = 0, 1
        base = np.linspace(-1, 1, k)
        X = [np.dstack([base[y] + noise * rng.normal(size=y.shape)
                        for _ in range(d)]) for y in Y]
        Xt = [rng.normal(size=vary[i % len(vary)] + (d,)) for i in range(3)]
        cls = SimGrid if fam == "grid" else SimDirGrid
        meth = "max-product" if h == 1 else ("ad3", {"branch_and_bound": True})
        return Problem(fam, lambda: cls(inference_method=meth), X, Y, Xt,
                       labels=lambda x, y: [z.reshape(x.shape[:2]) for z in
                                            _all_labels(
                                                x.shape[0] * x.shape[1], k)],
                       note="%dx%d%s" % (h, wd, "" if len(vary) == 1
                                         else " and others"))
    if fam == "typed":
        return _typed_problem(t, rng, n, noise)
    # graphs
    k, d = t.between(2, 3, "states"), t.between(1, 2, "features")
    nodes = t.between(1 if fam != "loopy" else 3, 4 if k == 2 else 3, "nodes")
    sizes = [nodes if fam == "loopy" else 1 + rng.randint(nodes)
             for _ in range(n)]
    Y = [rng.randint(k, size=s) for s in sizes]
    Y, k = _contiguous(Y)
    if k < 2:
        Y = [np.arange(max(2, nodes)) % 2] + Y[1:]
        k = 2
        sizes[0] = len(Y[0])
    frustrated = fam == "loopy" and bool(t.draw(2, "frustrated cycles"))
    if frustrated:
        # neighbours disagree wherever they can, and the features say little:
        # learned potentials make the relaxation fractional on odd cycles
        Y = [(np.arange(nodes) + rng.randint(2)) % 2 for _ in range(n)]
        k, noise = 2, 1.5
    Y = [np.asarray(y, dtype=np.int64) for y in Y]
    F = [_noisy_features(rng, y, k, d, noise) for y in Y]
    Ft = [rng.normal(size=(s, d)) for s in (1, 2, nodes)]
    if fam == "loopy":
        Ft = [rng.normal(size=(nodes, d)) for s in range(3)]
    lab = lambda x, y: _all_labels(len(y), k)
    note = "nodes<=%d k=%d d=%d" % (nodes, k, d)
    if fam == "chain":
        directed = bool(t.draw(2, "directed"))
        return Problem("chain", lambda: SimChain(
            inference_method="max-product", directed=directed), F, Y, Ft,
            labels=lab, note=note)
    if fam == "tree":
        meth = t.choice(("max-product", "ad3", "lp"), "inference")
        X = [(f, _tree_edges(rng, len(f))) for f in F]
        Xt = [(f, _tree_edges(rng, len(f))) for f in Ft]
        return Problem("tree", lambda: SimGraph(inference_method=meth),
                       X, Y, Xt, labels=lab, note=note + " " + meth,
                       integral=(meth == "max-product"))
    if fam == "loopy":
        cyc = np.array([[i, (i + 1) % nodes] for i in range(nodes)])
        meth = t.choice((("ad3", {"branch_and_bound": True}), "ad3", "lp"),
                        "inference")
        return Problem("loopy", lambda: SimGraph(inference_method=meth),
                       [(f, cyc) for f in F], Y, [(f, cyc) for f in Ft],
                       labels=lab, note=note + " " + str(meth) +
                       (" frustrated" if frustrated else ""),
                       exact=isinstance(meth, tuple),
                       integral=isinstance(meth, tuple))
    assert fam == "edge"
    X, Xt = [], []
    ne = t.between(1, 2, "edge features")
    for src, dst in ((F, X), (Ft, Xt)):
        for f in src:
            e = _tree_edges(rng, len(f))
            dst.append((f, e, rng.normal(size=(len(e), ne))))
    return Problem("edge", lambda: SimEdge(
        n_states=k, n_features=d, n_edge_features=ne,
        inference_method="max-product"), X, Y, Xt, labels=lab, note=note)


def _typed_labels(sizes, states):
    first = np.hstack([[0], np.cumsum(states)])
    per_node = [range(first[a], first[a + 1])
                for a, m in enumerate(sizes) for _ in range(m)]
    return [np.array(y, dtype=np.int64) for y in itertools.product(*per_node)]


def _typed_problem(t, rng, n, noise):
    """Two node types with their own states and features; tree-shaped or
    cyclic graphs with edges within and between the types."""
    states = [t.between(2, 3, "states 0"), 2]
    feats = [t.between(1, 2, "features 0"), 1]
    ef = np.array([[1, 1], [1, t.between(1, 2, "edge features")]])
    ef[1, 0] = ef[0, 1]
    cyclic = bool(t.chance(30, "cyclic"))
    meth = t.choice(("ad3", "ad3+"), "inference")
    first = [0, states[0], states[0] + states[1]]
    base = [rng.permutation(np.linspace(-1, 1, s * f)).reshape(s, f)
            for s, f in zip(states, feats)]

    def sample(labels=True):
        sizes = [rng.randint(1, 3), rng.randint(1, 3)]
        y = [rng.randint(s, size=m) for s, m in zip(states, sizes)]
        F = [b[v] + noise * rng.normal(size=(len(v), b.shape[1]))
             for b, v in zip(base, y)]
        chain = lambda m: np.array([[i, i + 1] for i in range(m - 1)],
                                   dtype=np.int64).reshape(-1, 2)
        E = [chain(sizes[0]), np.array([[0, 0]], dtype=np.int64),
             np.zeros((0, 2), dtype=np.int64), chain(sizes[1])]
        if cyclic and sizes[0] > 1:
            E[2] = np.array([[0, sizes[0] - 1]], dtype=np.int64)
        EF = [rng.normal(size=(len(e), q)) + .5 for e, q in
              zip(E, ef.ravel())]
        flat = np.hstack([v + o for v, o in zip(y, first)])
        return (F, E, EF), flat.astype(np.int64)
    data = [sample() for _ in range(n)]
    return Problem(
        "typed", lambda: SimNodeType(2, list(states), list(feats), ef,
                                     inference_method=meth),
        [x for x, _ in data], [y for _, y in data],
        [sample()[0] for _ in range(3)],
        labels=lambda x, y: _typed_labels([len(f) for f in x[0]], states),
        exact=not cyclic, integral=False,
        note="states=%s %s%s" % (states, meth, " cyclic" if cyclic else ""))


LEARNERS = ("nslack", "oneslack", "fw", "fwbatch", "subgradient",
            "perceptron")


class Setup:
    """A learner configuration on a problem; build() makes fresh twins."""

    def __init__(self, problem, kind, cls, cfg):
        self.problem, self.kind, self.cls, self.cfg = problem, kind, cls, cfg

    def build(self, **over):
        cfg = dict(self.cfg)
        cfg.update(over)
        return self.cls(model=self.problem.make_model(), **cfg)

    def fit(self, learner, **kw):
        p = self.problem
        return learner.fit(p.X, p.Y, **kw)

    def describe(self):
        return "%s(%s) on %r" % (
            self.cls.__name__,
            ", ".join("%s=%r" % kv for kv in sorted(self.cfg.items())
                      if kv[0] != "logger"), self.problem)


def make_setup(t, problem=None, learners=LEARNERS, families=FAMILIES,
               max_iter=None, max_n=6, knobs=True):
    """Draw a learner with its knobs."""
    kind = t.choice(learners, "learner")
    p = problem if problem is not None else make_problem(t, families,
                                                         max_n=max_n)
    if kind == "perceptron" and getattr(p.make_model(), "rescale_C", False):
        kind = "nslack"           # a perceptron has no C to rescale
    C = t.choice((1.0, 0.1, 10.0), "C")
    mi = max_iter
    if kind == "nslack":
        cfg = dict(C=C, max_iter=mi or t.choice((60, 3, 1), "max_iter"),
                   tol=t.choice((1e-3, 1e-2), "tol"))
        if knobs:
            cfg.update(batch_size=t.choice((100, 1, 2, -1), "batch_size"),
                       check_constraints=not t.draw(2, "check"),
                       inactive_window=t.choice((50, 0, 2), "window"))
        cls = NSlackSSVM
    elif kind == "oneslack":
        cfg = dict(C=C, max_iter=mi or t.choice((80, 4, 1), "max_iter"),
                   tol=t.choice((1e-3, 1e-2), "tol"))
        if knobs:
            cfg.update(inference_cache=t.choice((0, 1, 3, 50), "cache"),
                       check_constraints=bool(t.draw(2, "check")),
                       inactive_window=t.choice((50, 0, 2), "window"))
            if cfg["inference_cache"]:
                cfg["cache_tol"] = t.choice(("auto", 0.1, None), "cache_tol")
        cls = OneSlackSSVM
    elif kind in ("fw", "fwbatch"):
        cfg = dict(C=C, max_iter=mi or t.choice((12, 3, 1), "max_iter"),
                   random_state=t.draw(50, "fw seed"), tol=1e-3,
                   batch_mode=(kind == "fwbatch"))
        if knobs:
            cfg.update(line_search=not t.chance(25, "no line search"),
                       check_dual_every=t.choice((10, 1, 2, 0), "dual every"),
                       do_averaging=not t.draw(2, "no averaging"),
                       sample_method=t.choice(("perm", "rnd", "seq"),
                                              "sampling"))
        cls = FrankWolfeSSVM
    elif kind == "subgradient":
        cfg = dict(C=C, max_iter=mi or t.choice((8, 3, 1), "max_iter"),
                   learning_rate=t.choice(("auto", 0.1, 0.01), "rate"))
        if knobs:
            cfg.update(momentum=t.choice((0.0, 0.5), "momentum"),
                       decay_exponent=t.choice((1, 0, 0.5), "decay"),
                       averaging=t.choice((None, "linear", "squared"),
                                          "averaging"),
                       batch_size=t.choice((None, 2, -1), "batch_size"))
            if t.chance(30, "rarer knobs"):
                cfg.update(decay_t0=t.choice((1, 3, 100), "decay_t0"),
                           break_on_no_constraints=bool(t.draw(2, "break")))
        cls = SubgradientSSVM
    else:
        cfg = dict(max_iter=mi or t.choice((8, 3, 1), "max_iter"))
        if knobs:
            cfg.update(batch=bool(t.draw(2, "batch")),
                       average=t.choice((False, True, 1, -1), "average"),
                       decay_exponent=t.choice((0, -0.5), "decay"),
                       decay_t0=t.choice((10, 1), "t0"))
        cls = StructuredPerceptron
    if kind != "perceptron" and knobs and t.chance(25, "loss curve"):
        cfg["show_loss_every"] = t.choice((1, 2), "loss every")
    return Setup(p, kind, cls, cfg)


def maybe_negative(t, s, percent=12):
    """Some weights must not become positive (cutting planes only)."""
    if s.kind not in ("nslack", "oneslack") \
            or not t.chance(percent, "negativity constraint"):
        return
    model = s.problem.make_model()
    with silence_points():
        model.initialize(s.problem.X, s.problem.Y)
    size = model.size_joint_feature
    s.cfg["negativity_constraint"] = sorted({
        t.draw(size, "constrained weight") for _ in range(1 + t.draw(2))})


def check_negative(s, w):
    """The constrained weights are not positive; returns a description of the
    problem, if any."""
    idx = s.cfg.get("negativity_constraint")
    if idx is not None:
        worst = float(np.max(np.asarray(w)[idx]))
        if worst > 1e-3 * max(1.0, float(np.max(np.abs(w)))):
            return "weights %s must not be positive, w=%r" % (idx, w)
    return None


# -- independent oracles -----------------------------------------------------------
def joint(model, x, y, y_true):
    if getattr(model, "rescale_C", False):
        return model.joint_feature(x, y, y_true)
    return model.joint_feature(x, y)


def slack_of(model, x, y, w):
    """The margin violation on (x, y), by the model's own inference."""
    y_hat = model.loss_augmented_inference(x, y, w, relaxed=True)
    loss = (model.continuous_loss(y, y_hat[0]) if isinstance(y_hat, tuple)
            else model.loss(y, y_hat))
    return loss + np.dot(w, joint(model, x, y_hat, y)
                         - joint(model, x, y, y))


def primal(problem, model, w, C, variant="n_slack"):
    """The SSVM objective at w, computed from the definition."""
    with silence_points():
        s = [slack_of(model, x, y, w) for x, y in zip(problem.X, problem.Y)]
    if variant == "one_slack":
        return C * max(np.sum(s), 0) + np.dot(w, w) / 2.
    return C * np.sum(np.maximum(s, 0)) + np.dot(w, w) / 2.


def enumerate_primal(problem, model, w, C):
    """The same with exhaustive loss-augmented inference."""
    total = 0.0
    with silence_points():
        for x, y in zip(problem.X, problem.Y):
            best = 0.0
            gt = joint(model, x, y, y)
            for z in problem.labels(x, y):
                s = model.loss(y, z) + np.dot(w, joint(model, x, z, y) - gt)
                best = max(best, s)
            total += best
    return C * total + np.dot(w, w) / 2.


def solve_exact(problem, model, C):
    """Optimum of the SSVM by enumerating every constraint: returns
    (lower bound, upper bound, w).  Both bounds are certified by evaluation,
    so nothing depends on trusting the QP solver."""
    import cvxopt
    from .seams import REAL
    A, b, groups = [], [], []
    with silence_points():
        for i, (x, y) in enumerate(zip(problem.X, problem.Y)):
            gt = joint(model, x, y, y)
            for z in problem.labels(x, y):
                A.append(gt - joint(model, x, z, y))
                b.append(model.loss(y, z))
                groups.append(i)
    A, b, groups = np.array(A, float), np.array(b, float), np.array(groups)
    m, n = len(b), len(problem.X)
    G = np.zeros((m + n, m))
    G[:m] = -np.eye(m)
    for i in range(n):
        G[m + i, groups == i] = 1
    h = np.hstack([np.zeros(m), C * np.ones(n)])
    P = A.dot(A.T) + 1e-10 * np.eye(m)
    sol = REAL["qp"](cvxopt.matrix(P), cvxopt.matrix(-b),
                     cvxopt.matrix(G), cvxopt.matrix(h),
                     options={"show_progress": False, "abstol": 1e-9,
                              "reltol": 1e-9, "feastol": 1e-9})
    a = np.maximum(np.ravel(sol["x"]), 0)
    for i in range(n):                      # make it exactly dual feasible
        s = a[groups == i].sum()
        if s > C:
            a[groups == i] *= C / s
    w = a.dot(A)
    lower = b.dot(a) - w.dot(w) / 2.
    slack = np.zeros(n)
    viol = b - A.dot(w)
    for i in range(n):
        slack[i] = max(0.0, viol[groups == i].max())
    upper = C * slack.sum() + w.dot(w) / 2.
    return lower, upper, w


def curves(learner):
    return {k: [float(v) for v in getattr(learner, k)]
            for k in ("objective_curve_", "primal_objective_curve_",
                      "loss_curve_") if hasattr(learner, k)}


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol)


def as_labels(y):
    """A comparable form of a prediction (tuples of marginals included)."""
    if isinstance(y, tuple):
        return tuple(np.asarray(v) for v in y)
    return np.asarray(y)


def same_labels(a, b, atol=1e-6):
    a, b = as_labels(a), as_labels(b)
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        return all(x.shape == y.shape and np.allclose(x, y, atol=atol)
                   for x, y in zip(a, b))
    return a.shape == b.shape and bool(np.allclose(a, b, atol=atol))
