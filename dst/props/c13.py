"""C13: inference back ends report failures and give well-formed answers."""
import itertools
import sys
import types

import numpy as np

from dst import latent as LT
from dst import workloads as W
from dst.common import (Injected, Reject, Violation, Workers, deep,
                        draw_workers, finite, guard, need, same_data)
from dst.core import silence_points
from pystruct.inference import (InferenceException, get_installed,
                                inference_dispatch)
from pystruct.models import (ChainCRF, EdgeFeatureGraphCRF, GraphCRF,
                             GridCRF, MultiLabelClf,
                             NodeTypeEdgeFeatureGraphCRF)

TIERS = {"quick": {"runs": 6000, "wall": 80, "min": 800},
         "thorough": {"runs": 120000, "wall": 780, "min": 3000}}
RULE = ("a run makes inference back ends disappear, appear or stop loading "
        "between calls, or lets the AD3 or LP solver answer with a drawn "
        "status, fractional or corrupted marginals or an exception, calls "
        "pystruct through dispatch, models and trainings, and compares every "
        "answer with the one the forged marginals (or enumeration) imply; "
        "non-trivial when at least one answer was compared")
REAL = ["pystruct.inference, all CRF models, learners", "ad3 and cvxopt lp "
        "(where their answer is not forged)"]
STUB = ["module import of ad3, pyqpbo, opengm", "pyqpbo and opengm (brute "
        "force stand-ins)", "status and marginals returned by ad3 and lp",
        "joblib worker pool"]

FILTER = ["max-product", "ad3", "ad3+", "qpbo", "ogm", "lp"]
LIB = {"ad3": "ad3", "ad3+": "ad3", "qpbo": "pyqpbo", "ogm": "opengm"}


def run(w):
    t = w.tape
    {"forged": forged, "available": available, "lp": lp, "typed": typed,
     "training": training}[t.choice(
         ("forged", "available", "lp", "typed", "training"),
         "scenario")](w, t)


# -- stand-ins for the libraries that are not installed ------------------------
def brute(unary, pairwise, edges, sign):
    """Labelling with the largest sign * energy."""
    n, k = unary.shape
    best, arg = None, None
    for y in itertools.product(range(k), repeat=n):
        e = sum(unary[i, y[i]] for i in range(n))
        e += sum(pairwise[j][y[a], y[b]] for j, (a, b) in enumerate(edges))
        if best is None or sign * e > best:
            best, arg = sign * e, y
    return np.array(arg)


def fake_qpbo():
    m = types.ModuleType("pyqpbo")

    def alpha_expansion_general_graph(edges, unary, pairwise, n_iter=5,
                                      verbose=False, random_seed=None):
        for v in (edges, unary, pairwise):
            need(v.dtype == np.int32, "bad-call", "pyqpbo got %s", v.dtype)
        return brute(unary, pairwise, edges, -1)
    m.alpha_expansion_general_graph = alpha_expansion_general_graph
    return m


def fake_ogm():
    m = types.ModuleType("opengm")
    m.label_type, m.value_type = np.uint64, np.float64

    class GM:
        def __init__(self, states):
            self.states = np.asarray(states)
            self.unary = self.pair = self.edges = None

        def reserveFactors(self, n):
            self.reserved = n

        def reserveFunctions(self, n, kind):
            pass

        def addFunctions(self, f):
            return np.asarray(f)

        def addFactors(self, f, vis):
            if np.ndim(vis) == 1:
                self.unary = f
            else:
                self.pair, self.edges = f, np.asarray(vis)

        def evaluate(self, y):
            return sum(self.unary[i, v] for i, v in enumerate(y)) + sum(
                self.pair[j][y[int(a)], y[int(b)]]
                for j, (a, b) in enumerate(self.edges))

    class Solver:
        def __init__(self, gm):
            self.gm = gm

        def setStartingPoint(self, y):
            pass

        def infer(self):
            g = self.gm
            self.res = brute(g.unary, g.pair, g.edges.astype(int), -1)

        def arg(self):
            return self.res.astype(np.uint64)
    m.gm = GM
    m.inference = types.SimpleNamespace(**{
        name: Solver for name in (
            "BeliefPropagation", "DualDecompositionSubgradient",
            "TrwsExternal", "TreeReweightedBp", "Gibbs", "LazyFlipper",
            "Icm", "DynamicProgramming", "AlphaExpansionFusion", "GraphCut",
            "Loc", "Mqpbo", "AlphaExpansion")})
    return m


class Libraries:
    """What can be imported right now."""

    def __init__(self, w):
        self.w = w
        self.real = {n: sys.modules.get(n, Ellipsis)
                     for n in ("ad3", "pyqpbo", "opengm")}
        self.fakes = {"pyqpbo": fake_qpbo(), "opengm": fake_ogm(),
                      "ad3": self.real["ad3"]}

    def set(self, have):
        for n, m in self.fakes.items():
            if n in have:
                sys.modules[n] = m
            else:
                sys.modules[n] = None
                self.w.fault("library %s missing" % n)
        self.have = have

    def restore(self):
        for n, m in self.real.items():
            if m is Ellipsis:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m

    def has(self, method):
        return method in ("max-product", "lp", "unary") \
            or LIB[method] in self.have


def tree(t, rng):
    """A random tree with potentials."""
    n, k = t.between(1, 4, "nodes"), t.between(2, 3, "states")
    edges = W._tree_edges(rng, n)
    if t.chance(30, "chain"):
        edges = np.array([[i, i + 1] for i in range(n - 1)],
                         dtype=np.int64).reshape(-1, 2)
    unary = rng.normal(size=(n, k))
    pair = rng.normal(size=(len(edges), k, k))
    if t.chance(30, "shared"):
        pair = rng.normal(size=(k, k))
    return unary, pair, edges


def energy(unary, pair, edges, y):
    if pair.ndim == 2:
        pair = np.repeat(pair[None], len(edges), axis=0)
    return sum(unary[i, v] for i, v in enumerate(y)) + sum(
        pair[j][y[a], y[b]] for j, (a, b) in enumerate(edges))


def labelling(y, n, k, what):
    need(isinstance(y, np.ndarray) and y.shape == (n,)
         and y.dtype.kind in "iu", "malformed", "%s: not a labelling of %d "
         "nodes: %r", what, n, y)
    need(y.min() >= 0 and y.max() < k, "malformed", "%s: labels %r with %d "
         "states", what, y, k)


def available(w, t):
    libs = Libraries(w)
    order = t.draw(1 << 16, "graph")
    rng = np.random.RandomState(order)
    unary, pair, edges = tree(t, rng)
    n, k = unary.shape
    full = pair if pair.ndim == 3 else np.repeat(pair[None], len(edges), 0)
    best = energy(unary, pair, edges, brute(unary, full, edges, 1))
    phases = []
    try:
        for _ in range(t.between(1, 3, "phases")):
            have = [x for x in ("ad3", "pyqpbo", "opengm")
                    if t.draw(2, x)]
            phases.append("+".join(have) or "nothing")
            w.stats.note = "availability|%s" % ", then ".join(phases)
            libs.set(have)
            w.point("libraries", phases[-1])
            want = [m for m in FILTER if libs.has(m)]
            got = guard(w, "get_installed", get_installed)
            need(got == want, "wrong-installed", "with %s get_installed() "
                 "is %s, expected %s", phases[-1], got, want)
            some = [m for m in FILTER[::-1] if t.draw(2, "ask " + m)]
            if some:
                got = guard(w, "get_installed", lambda: get_installed(some))
                need(got == [m for m in some if libs.has(m)],
                     "wrong-installed", "with %s get_installed(%s) is %s",
                     phases[-1], some, got)
            for m in FILTER + ["unary"]:
                one_method(w, t, libs, m, unary, full if m == "ad3+"
                           else pair, edges, best)
            bad = t.choice(("", "AD3", "max_product", None, 3), "bad name")
            try:
                inference_dispatch(unary, pair, edges, bad)
            except ValueError:
                pass
            else:
                raise Violation("wrong-method", "method %r was accepted"
                                % (bad,))
            defaults(w, t, libs, unary, edges)
            w.stats.nontrivial = True
    finally:
        libs.restore()


def one_method(w, t, libs, m, unary, pair, edges, best):
    with_energy = m in ("lp", "ad3", "ad3+", "ogm") \
        and bool(t.draw(2, "energy"))
    meth = m
    if m == "ogm":
        meth = (m, {"alg": t.choice(("dd", "bp", "trws", "trw", "gibbs", "lf",
                                     "icm", "dyn", "fm", "gc", "loc",
                                     "mqpbo", "alphaexp"), "alg")})
    elif m in ("ad3", "ad3+"):
        meth = (m, {"branch_and_bound": True})
    n, k = unary.shape
    before = deep((unary, pair, edges))
    keep = deep(meth)

    kw = {"return_energy": True} if with_energy else {}
    if m in ("lp", "ad3", "ad3+"):
        if t.draw(2, "say relaxed"):
            kw["relaxed"] = False
        if m == "ad3" and t.draw(2, "say branch and bound"):
            # the method's own options come first
            kw["branch_and_bound"] = False
    keep_kw = dict(kw)

    def call():
        w.point("dispatch", m)
        return inference_dispatch(unary, pair, edges, meth, **kw)
    if not libs.has(m):
        try:
            call()
        except ImportError:
            return
        except Exception as e:
            raise Violation("wrong-exception", "%s is not installed, the "
                            "call raised %r" % (m, e))
        raise Violation("missing-backend", "%s is not installed, but the "
                        "call returned" % m)
    out = guard(w, "inference with " + m, call)
    need(same_data(before, (unary, pair, edges)) and keep == meth
         and kw == keep_kw, "arguments-modified",
         "%s modified its arguments", m)
    if with_energy:
        need(isinstance(out, tuple) and len(out) == 2, "malformed",
             "%s with return_energy gave %r", m, out)
        out, e = out
    labelling(out, n, k, m)
    if m == "unary":
        need(np.array_equal(out, unary.argmax(axis=1)), "wrong-labels",
             "unary inference gave %s", out)
        return
    tol = 2e-3 if m == "qpbo" else 1e-3
    tol *= 4 * max(1, n + len(edges))
    if m in ("ad3", "lp", "ad3+"):
        # near ties the solvers stop early
        tol = max(tol, 0.02)
    got = energy(unary, pair, edges, out)
    need(got >= best - tol, "wrong-labels", "%s on a tree found %s with "
         "energy %r, the best is %r", m, out, got, best)
    if with_energy:
        need(abs(-e - got) <= tol * 2, "wrong-energy", "%s gave %s with "
             "energy %r, its energy is %r", m, out, e, got)


def defaults(w, t, libs, unary, edges):
    """Which method models without inference_method use."""
    cls = t.choice((GraphCRF, GridCRF, ChainCRF), "model")
    m = guard(w, "the constructor", lambda: cls(n_states=2, n_features=1))
    want = "ad3" if libs.has("ad3") else "max-product"
    got = m.inference_method
    own = "max-product" if cls is ChainCRF else want
    need(got == own, "wrong-default", "with %s %s uses %r, expected %r",
         libs.have, cls.__name__, got, own)
    rng = np.random.RandomState(t.draw(100, "weights"))
    wts = rng.normal(size=m.size_joint_feature)
    x = rng.normal(size=(3, 1))
    if cls is GraphCRF:
        x = (x, np.array([[0, 1], [1, 2]]))
    elif cls is GridCRF:
        x = x.reshape(1, 3, 1)
    y = guard(w, "inference", lambda: m.inference(x, wts))
    best = max(np.dot(wts, m.joint_feature(x, np.array(z).reshape(y.shape)))
               for z in itertools.product(range(2), repeat=3))
    need(np.dot(wts, m.joint_feature(x, y)) >= best - .02, "wrong-labels",
         "%s with the default method found %s", cls.__name__, y)
    for cls, args in ((MultiLabelClf, dict(n_labels=2, n_features=1)),
                      (EdgeFeatureGraphCRF, dict(n_states=2, n_features=1,
                                                 n_edge_features=1))):
        m = guard(w, "the constructor", lambda: cls(**args))
        if cls is not MultiLabelClf:
            need(m.inference_method == want, "wrong-default", "with %s %s "
                 "uses %r, expected %r", libs.have, cls.__name__,
                 m.inference_method, want)
    if not libs.has("ad3"):
        m = GraphCRF(n_states=2, n_features=1, inference_method="ad3")
        g = (rng.normal(size=(3, 1)), np.array([[0, 1], [1, 2]]))
        for what, call in (
                ("inference", lambda: m.inference(g, wts_of(m, rng))),
                ("loss-augmented inference", lambda:
                 m.loss_augmented_inference(g, np.zeros(3, dtype=int),
                                            wts_of(m, rng))),
                ("fit", lambda: W.SubgradientSSVM(m, max_iter=1).fit(
                    [g, g], [np.array([0, 1, 0]), np.array([1, 0, 1])]))):
            try:
                call()
            except ImportError:
                continue
            raise Violation("missing-backend", "%s with ad3 missing "
                            "returned" % what)


def wts_of(m, rng):
    return rng.normal(size=m.size_joint_feature)


# -- forged answers of ad3 -------------------------------------------------------
class Forge:
    """Replaces the answer of the AD3 entry points."""

    def __init__(self, w, t, seed, rate=100, repeat=0):
        self.w, self.t = w, t
        self.repeat, self.given = repeat, {}
        self.rng = np.random.RandomState(seed)
        self.rate = rate
        self.calls = []
        self.last = None
        self.error = None

    def __call__(self, world, name, real, a, k):
        if not name.startswith("ad3."):
            return real(*a, **k)
        self.calls.append((name, dict(k)))
        if self.error is not None:
            world.fault("%s raises" % name)
            raise self.error
        res = real(*a, **dict(k, n_iterations=5, exact=False))
        if self.rate < 100 and not self.t.chance(self.rate, "forge"):
            self.last = None
            return real(*a, **k)
        shape = same_shape(a)
        if self.repeat and shape in self.given \
                and self.t.chance(self.repeat, "the same answer again"):
            world.fault("ad3 repeats its last answer")
            self.last = self.given[shape]
            return deep(self.answer())
        status = self.t.choice(("fractional", "integral", "unsolved"),
                               "status")
        world.fault("ad3 answers " + status)
        U, E = res[0], res[1]
        edges = a[1]
        lam = 1.0 if status == "integral" else self.t.choice(
            (0.7, 0.3, 0.55, 1.0), "mixture")
        typed = isinstance(U, list)
        Us = U if typed else [U]
        Es = E if typed else [E]
        edg = edges if typed else [edges]
        # states a model excludes (latent ones at visible nodes) stay out
        pot = a[0] if typed else [a[0]]
        ys = [[np.array([self.rng.choice(np.flatnonzero(r > r.max() - 80))
                         for r in np.asarray(u)], dtype=int) for u in pot]
              for _ in range(2)]
        nU = []
        for i, u in enumerate(Us):
            v = np.zeros(u.shape)
            for y, m in zip(ys, (lam, 1 - lam)):
                v[np.arange(len(u)), y[i]] += m
            nU.append(v)
        nE = []
        T = len(Us)
        for j, (p, e) in enumerate(zip(Es, edg)):
            a1, a2 = divmod(j, T)
            k1, k2 = Us[a1].shape[1], Us[a2].shape[1]
            q = np.zeros((len(e), k1 * k2))
            for y, m in zip(ys, (lam, 1 - lam)):
                for r, (b, c) in enumerate(np.asarray(e)):
                    q[r, y[a1][int(b)] * k2 + y[a2][int(c)]] += m
            nE.append(q.reshape(np.shape(p)))
        value = float(np.round(self.rng.normal(), 6))
        self.last = self.given[shape] = (nU, nE, value, status, typed)
        return deep(self.answer())

    def answer(self):
        nU, nE, value, status, typed = self.last
        return ((nU if typed else nU[0]), (nE if typed else nE[0]), value,
                status)


def same_shape(a):
    """What the arguments of two calls with equal answers share."""
    u, e = (a[0], a[1]) if isinstance(a[0], list) else ([a[0]], [a[1]])
    return (tuple(np.shape(x) for x in u),
            tuple(np.asarray(x).tobytes() for x in e))


def pick_model(t):
    """Any CRF with an input, using an AD3 method."""
    if t.chance(30, "latent"):
        p = LT.make_problem(t, families=("lgraph", "lgrid", "lnode", "ledge",
                                         "ldirgrid"), max_n=2)
        latent = True
    else:
        p = W.make_problem(t, families=("tree", "loopy", "edge", "grid",
                                        "dirgrid", "typed", "chain",
                                        "multilabel"), max_n=2)
        latent = False
    return p, latent


def expected_labels(p, forged):
    nU = forged[0]
    off, out = 0, []
    for u in nU:
        out.append(off + np.argmax(u, axis=-1))
        off += u.shape[1] if forged[4] else 0
    return np.hstack(out)


def forged(w, t):
    p, latent = pick_model(t)
    m = p.make_model()
    with silence_points():
        m.initialize(p.X, p.Y)
    if p.name == "multilabel" and m.edges.shape[0] == 0:
        raise Reject("no edges, no inference")
    bnb = bool(t.draw(2, "branch and bound"))
    excn = p.name == "typed" and bool(t.draw(2, "inference exception"))
    if p.name == "typed":
        m.setInferenceMethod(t.choice(("ad3", "ad3+"), "method"))
        bnb = False
        guard(w, "setInferenceException",
              lambda: m.setInferenceException(excn))
    else:
        m.inference_method = ("ad3", {"branch_and_bound": True}) if bnb \
            else "ad3"
    keep_method = deep(m.inference_method)
    f = Forge(w, t, t.draw(1 << 16, "forged marginals"))
    rng = np.random.RandomState(t.draw(1 << 16, "weights"))
    wts = np.round(rng.normal(size=m.size_joint_feature), 3)
    x, y = p.X[0], p.Y[0]
    gt = p.H_init[0] if latent else y
    relaxed = bool(t.draw(2, "relaxed"))
    en = p.name not in ("ldirgrid",) and bool(t.draw(2, "energy"))
    call = t.choice(("inference", "loss_augmented_inference"), "call")
    if p.name == "multilabel":
        en = False
    w.stats.note = "forged ad3 on %s|%s relaxed=%s energy=%s %s %r" % (
        p.name, call, relaxed, en, m.inference_method, p)
    kw = {"relaxed": relaxed}
    if en:
        kw["return_energy"] = True

    def go():
        if call == "inference":
            return m.inference(x, wts, **kw)
        return m.loss_augmented_inference(x, gt, wts, **kw)
    keep = deep((x, gt, wts))
    w.solver = f
    raised = False
    try:
        out = guard(w, call, go, InferenceException)
    except InferenceException as e:
        raised = True
        need(f.last and f.last[3] in str(e), "wrong-exception",
             "%r for status %s", e, f.last and f.last[3])
    w.solver = None
    need(f.calls, "no-solver", "%s did not use ad3", call)
    need(bool(f.calls[0][1].get("exact")) == bnb, "bad-call",
         "branch_and_bound=%s, ad3 was called with %r", bnb, f.calls[0][1])
    need(same_data(keep, (x, gt, wts))
         and m.inference_method == keep_method, "arguments-modified",
         "%s modified its arguments or the model's method", call)
    nU, nE, value, status, _ = f.last
    soft = status in ("fractional", "unsolved")
    need(raised == (excn and soft and not relaxed), "wrong-exception",
         "status %s, relaxed=%s, exception requested: %s, raised: %s",
         status, relaxed, excn, raised)
    w.stats.nontrivial = True
    if raised:
        w.probe("InferenceException raised")
        return
    if en:
        need(isinstance(out, tuple) and len(out) == 2
             and np.isscalar(out[1]), "malformed", "return_energy gave %r",
             out)
        out, e = out
        need(abs(e + value) < 1e-12, "wrong-energy", "energy %r, the solver "
             "reported %r", e, -value)
    hard = expected_labels(p, f.last)
    if relaxed and soft:
        w.probe("relaxed answers compared")
        need(isinstance(out, tuple) and len(out) == 2, "malformed",
             "status %s, relaxed answer %r", status, out)
        Us = out[0] if isinstance(out[0], list) else [out[0]]
        Es = out[1] if isinstance(out[1], list) else [out[1]]
        if p.name in ("grid", "dirgrid", "lgrid", "ldirgrid"):
            need(Us[0].shape == np.shape(y) + (nU[0].shape[1],), "malformed",
                 "unary marginals of shape %s for a grid %s", Us[0].shape,
                 np.shape(y))
        need(len(Us) == len(nU) and all(
            np.array_equal(a.ravel(), b.ravel()) for a, b in zip(Us, nU)),
            "wrong-marginals", "unary marginals %r, the solver gave %r", Us,
            nU)
        need(len(Es) == len(nE) and all(
            np.array_equal(np.ravel(a), b.ravel())
            for a, b in zip(Es, nE)), "wrong-marginals",
            "pairwise marginals %r, the solver gave %r", Es, nE)
        with silence_points():
            psi = guard(w, "joint_feature", lambda: m.joint_feature(x, out))
            loss = guard(w, "loss", lambda: m.loss(gt, out))
        need(np.shape(psi) == (m.size_joint_feature,) and finite(psi)
             and finite(loss), "malformed", "joint feature %r, loss %r of a "
             "relaxed answer", psi, loss)
        if all(np.all((u == 0) | (u == 1)) for u in nU):
            w.probe("relaxed answer is a labelling")
            z = reshape(p, hard, gt)
            need(W.close(psi, m.joint_feature(x, z)), "wrong-marginals",
                 "joint feature of marginals that are a labelling")
            need(abs(loss - m.loss(gt, z)) < 1e-9, "wrong-marginals",
                 "loss of marginals that are a labelling: %r and %r", loss,
                 m.loss(gt, z))
        return
    need(isinstance(out, np.ndarray) and out.dtype.kind in "iu",
         "malformed", "status %s, relaxed=%s: %r", status, relaxed, out)
    z = reshape(p, hard, gt)
    need(out.shape == z.shape and np.array_equal(out, z), "wrong-labels",
         "the marginals round to %s, the answer is %s", z, out)


def reshape(p, flat, gt):
    if p.name in ("grid", "dirgrid", "lgrid", "ldirgrid"):
        return flat.reshape(np.shape(gt))
    return flat


# -- typed graphs, directly --------------------------------------------------------
def typed(w, t):
    """Several node types straight through dispatch; failing solvers."""
    p = W.make_problem(t, families=("typed",), max_n=1)
    m = p.make_model()
    x = p.X[0]
    rng = np.random.RandomState(t.draw(1 << 16, "weights"))
    wts = rng.normal(size=m.size_joint_feature)
    with silence_points():
        unary = m._get_unary_potentials(x, wts)
        pair = m._get_pairwise_potentials(x, wts)
        edges = m._get_edges(x)
    meth = t.choice(("ad3", "ad3+"), "method")
    relaxed = bool(t.draw(2, "relaxed"))
    asked = t.choice((None, True, False), "inference_exception")
    f = Forge(w, t, t.draw(1 << 16, "forged marginals"))
    boom = t.choice((None, None, RuntimeError("solver"), MemoryError(),
                     ValueError("solver")), "solver error")
    f.error = boom
    w.solver = f
    w.stats.note = "typed dispatch|%s relaxed=%s exception=%s %s" % (
        meth, relaxed, asked, boom)
    kw = {"relaxed": relaxed}
    if asked is not None:
        kw["inference_exception"] = asked
    try:
        out = inference_dispatch(unary, pair, edges, meth,
                                 return_energy=True, **kw)
    except InferenceException as e:
        need(f.error is None and asked and not relaxed
             and f.last[3] in ("fractional", "unsolved"), "wrong-exception",
             "%r raised for status %s, relaxed=%s", e,
             f.last and f.last[3], relaxed)
        w.stats.nontrivial = True
        return
    except Exception as e:
        need(e is boom, "unexpected-exception", "raised %r", e)
        w.stats.nontrivial = True
        # the next call works
        f.error = None
        f.rate = 0
        out = guard(w, "the call after the failure",
                    lambda: inference_dispatch(unary, pair, edges, meth))
        need(isinstance(out, np.ndarray), "malformed", "%r", out)
        return
    finally:
        w.solver = None
    need(boom is None, "fault-ignored", "the solver raised %r, the call "
         "returned %r", boom, out)
    nU, nE, value, status, _ = f.last
    out, e = out
    need(abs(e + value) < 1e-12, "wrong-energy", "energy %r, the solver "
         "reported %r", e, -value)
    soft = status in ("fractional", "unsolved")
    if soft and relaxed:
        need(isinstance(out, tuple) and same_data(list(out[0]), nU)
             and same_data(list(out[1]), nE), "wrong-marginals",
             "relaxed answer %r for %r", out, (nU, nE))
    else:
        need(not (asked and soft and not relaxed), "fault-ignored",
             "status %s and an exception was requested", status)
        need(isinstance(out, np.ndarray)
             and np.array_equal(out, expected_labels(p, f.last)),
             "wrong-labels", "answer %r for marginals %r", out, nU)
    w.stats.nontrivial = True


# -- the LP solver ------------------------------------------------------------------
def lp(w, t):
    rng = np.random.RandomState(t.draw(1 << 16, "graph"))
    unary, pair, edges = tree(t, rng)
    n, k = unary.shape
    if t.chance(40, "cycle") and n > 2:
        edges = np.array([[i, (i + 1) % n] for i in range(n)])
        if pair.ndim == 3:
            pair = rng.normal(size=(len(edges), k, k))
    if len(edges) == 0:
        raise Reject("the LP needs edges")
    what = t.choice(("mixture", "none", "no solution", "raises", "scaled",
                     "nan", "negative sum", "tiny error"), "lp answers")
    relaxed = bool(t.draw(2, "relaxed"))
    en = bool(t.draw(2, "energy"))
    err = t.choice((ValueError("singular"), ArithmeticError("lp"),
                    RuntimeError("glpk")), "error")
    seen = []

    def solver(world, name, real, a, kw):
        if name != "lp":
            return real(*a, **kw)
        import cvxopt
        res = dict(real(*a, **kw))
        x = np.array(res["x"]).ravel()
        y1 = rng.randint(k, size=n)
        y2 = rng.randint(k, size=n)
        lam = t.choice((0.7, 0.4, 1.0), "mixture")
        if what != "none":
            world.fault("lp " + what)
        if what == "mixture":
            x = lam * encode(y1, edges, k) + (1 - lam) * encode(y2, edges, k)
        elif what == "no solution":
            res["x"] = res["primal objective"] = None
            res["status"] = t.choice(("primal infeasible", "unknown"),
                                     "status")
            seen.append(None)
            return res
        elif what == "raises":
            raise err
        elif what == "scaled":
            x = x * 1.01
        elif what == "nan":
            x[t.draw(len(x), "which")] = np.nan
        elif what == "negative sum":
            x[:k] -= 2.0
        elif what == "tiny error":
            x = x + 1e-6
        res["x"] = cvxopt.matrix(x)
        if what in ("scaled", "nan", "negative sum") \
                and t.draw(2, "the solver gave up"):
            res["status"] = "unknown"
        if what == "mixture":
            res["primal objective"] = float(np.round(rng.normal(), 5))
        seen.append((x, res["primal objective"]))
        return res
    w.solver = solver
    w.stats.note = "lp %s|relaxed=%s energy=%s %d nodes" % (what, relaxed,
                                                            en, n)
    before = deep((unary, pair, edges))
    try:
        out = inference_dispatch(unary, pair, edges, "lp", relaxed=relaxed,
                                 return_energy=en)
    except Exception as e:
        w.solver = None
        need(what in ("no solution", "raises", "scaled", "nan",
                      "negative sum"), "unexpected-exception",
             "lp %s raised %r", what, e)
        if what == "raises":
            need(e is err, "wrong-exception", "%r became %r", err, e)
        out = guard(w, "the call after the failure", lambda:
                    inference_dispatch(unary, pair, edges, "lp"))
        labelling(out, n, k, "lp")
        w.stats.nontrivial = True
        return
    w.solver = None
    need(what in ("mixture", "none", "tiny error"), "fault-ignored",
         "lp %s, but the call returned %r", what, out)
    need(same_data(before, (unary, pair, edges)), "arguments-modified",
         "the potentials changed")
    x, value = seen[0]
    if en:
        need(isinstance(out, tuple) and len(out) == 2, "malformed",
             "return_energy gave %r", out)
        out, e = out
        need(abs(e - value) < 1e-9, "wrong-energy", "energy %r, the solver "
             "reported %r", e, value)
    U = x[:n * k].reshape(n, k)
    E = x[n * k:].reshape(len(edges), k * k)
    if relaxed:
        need(isinstance(out, tuple) and len(out) == 2
             and np.array_equal(out[0], U) and np.array_equal(out[1], E),
             "wrong-marginals", "answer %r for %r", out, (U, E))
    else:
        labelling(out, n, k, "lp")
        need(np.array_equal(out, U.argmax(axis=1)), "wrong-labels",
             "answer %s for marginals %r", out, U)
    w.stats.nontrivial = True


def encode(y, edges, k):
    u = np.zeros((len(y), k))
    u[np.arange(len(y)), y] = 1
    e = np.zeros((len(edges), k * k))
    e[np.arange(len(edges)), y[edges[:, 0]] * k + y[edges[:, 1]]] = 1
    return np.hstack([u.ravel(), e.ravel()])


# -- training on forged answers ------------------------------------------------------
def training(w, t):
    """Relaxed answers at any call: training ends, nothing is garbage."""
    p = W.make_problem(t, families=("loopy", "typed", "tree", "grid",
                                    "dirgrid", "edge"), max_n=4)
    s = W.make_setup(t, problem=p)
    s.cfg["max_iter"] = min(s.cfg["max_iter"], 8)
    real_make = p.make_model

    def make():
        m = real_make()
        if p.name != "typed":
            m.inference_method = "ad3"
        return m
    p.make_model = make
    k = draw_workers(t)
    k.gap = 0
    w.backend = k
    if s.kind not in ("fw", "fwbatch", "subgradient"):
        s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    f = Forge(w, t, t.draw(1 << 16, "forged marginals"),
              rate=t.choice((30, 70), "rate"),
              repeat=t.choice((0, 30, 60), "repetitions"))
    w.solver = f
    w.stats.note = "training, %s on %s|%s; %s" % (s.kind, p.name,
                                                  s.describe(), k.describe())
    data = deep(p.X), deep(p.Y)
    l = s.build()
    guard(w, "fit", lambda: s.fit(l))
    pred = guard(w, "predict", lambda: l.predict(p.X))
    for x, y, z in zip(p.X, p.Y, pred):
        need(isinstance(z, np.ndarray) and z.dtype.kind in "iu"
             and z.shape == y.shape, "malformed", "predict returned %r", z)
    sc = guard(w, "score", lambda: l.score(p.X, p.Y))
    w.solver = None
    need(same_data(data, (p.X, p.Y)), "data-modified",
         "the training data changed")
    need(finite(l.w) and finite(sc) and -1e-9 <= sc <= 1 + 1e-9,
         "malformed", "w=%r score=%r", l.w, sc)
    for name, c in W.curves(l).items():
        need(finite(c), "malformed", "%s is %r", name, c)
    if f.calls:
        w.stats.nontrivial = True
