"""C20: learners behave as scikit-learn estimators in parallel model
selection."""
import warnings

import numpy as np
from sklearn.base import clone
from sklearn.model_selection import (GridSearchCV, KFold, ParameterGrid,
                                     cross_val_score, cross_validate)

from dst import workloads as W
from dst.common import (Reject, Violation, Workers, deep, draw_workers,
                        guard, need, same_data, sub_world)
from dst.core import silence_points
from dst.snap import difference
from dst.workloads import close

TIERS = {"quick": {"runs": 900, "wall": 70, "min": 200},
         "thorough": {"runs": 30000, "wall": 780, "min": 1000}}
RULE = ("a run scores a learner by cross-validation or a grid search in a "
        "drawn worker pool (threads preempted at any line, or processes with "
        "read-only data), possibly with a failing inference call in one of "
        "the trainings; every score is compared with a fresh learner trained "
        "alone on that fold; non-trivial when the pool ran at least two "
        "trainings")
REAL = ["pystruct learners, models, inference", "scikit-learn clone, "
        "cross_validate, GridSearchCV", "cvxopt QP/LP", "ad3",
        "joblib front end"]
STUB = ["joblib worker pool", "clock"]


class Lost(Exception):
    """An inference call failed."""


GRID = {"C": (0.1, 1.0, 5.0), "max_iter": (1, 2, 5), "tol": (1e-3, 0.1),
        "batch_size": (1, 2), "inference_cache": (0, 3),
        "inactive_window": (0, 2, 50), "check_constraints": (True, False),
        "learning_rate": (0.1, 0.01), "momentum": (0.0, 0.5),
        "averaging": (None, "linear"), "line_search": (True, False),
        "sample_method": ("perm", "seq"), "do_averaging": (True, False),
        "average": (False, True), "batch": (False, True),
        "decay_exponent": (0, 1), "random_state": (0, 1),
        "n_jobs": (1, 2)}


def setup(t):
    p = W.make_problem(t, max_n=7, min_n=4)
    s = W.make_setup(t, problem=p)
    s.cfg["max_iter"] = min(s.cfg["max_iter"], 8)
    s.cfg["n_jobs"] = 1
    if s.kind not in ("fw", "fwbatch") and t.chance(25, "nested pool"):
        s.cfg["n_jobs"] = 2
        if s.kind == "subgradient":
            s.cfg["n_jobs"] = 1
    return s


def take(seq, idx):
    if isinstance(seq, np.ndarray):
        return seq[idx]
    return [seq[i] for i in idx]


def labels(Y):
    return set(np.unique(np.hstack([np.ravel(y) for y in Y])))


def score(l, X, Y):
    """What score has to give, from the losses of single samples."""
    m = l.model
    pred = l.predict(X)
    return 1. - sum(float(m.loss(y, z)) for y, z in zip(Y, pred)) \
        / float(sum(m.max_loss(y) for y in Y))


def survives(w, base, t):
    """A parameter comes back from get_params and clone as it was given."""
    a = base.get_params(deep=False)
    names = [x for x in sorted(a) if x != "model"]
    for _ in range(3):
        x = t.choice(names, "parameter")
        v = t.choice((None, 0, 1.0, 7, False), "value")
        other = guard(w, "clone", lambda: clone(base))
        guard(w, "set_params", lambda: other.set_params(**{x: v}))
        try:
            c = guard(w, "clone with %s=%r" % (x, v), lambda: clone(other),
                      ValueError)
        except ValueError:
            continue                    # not a value for this parameter
        b = c.get_params(deep=False)
        want = dict(a, **{x: v})
        want.pop("model"), b.pop("model")
        need(difference(want, b) is None and type(b[x]) is type(v),
             "wrong-clone", "clone has %r, the original %r", b, want)


def run(w):
    t = w.tape
    s = setup(t)
    p = s.problem
    X, Y = p.X, p.Y
    n = len(X)
    if n < 4:
        raise Reject("too few samples")
    k = draw_workers(t)
    jobs = t.choice((2, 3, -1, 1), "pool")
    cv = KFold(t.choice((2, 3, 4), "folds"), shuffle=True,
               random_state=t.draw(10, "split"))
    splits = list(cv.split(X))
    every = labels(Y)
    if any(labels(take(Y, a)) != every for a, _ in splits):
        raise Reject("a fold without some label")
    op = t.choice(("grid", "cross_val_score", "cross_validate"), "operation")
    base = s.build()
    grid = [{}]
    if op == "grid":
        names = [x for x in sorted(GRID) if x in base.get_params()
                 and not (x == "n_jobs" and s.kind in (
                     "fw", "fwbatch", "subgradient"))
                 and not (x == "averaging" and s.kind != "subgradient")]
        pick = [names.pop(t.draw(len(names), "parameter"))
                for _ in range(t.between(1, 2, "parameters"))]
        params = {}
        for x in pick:
            v = GRID[x]
            params[x] = list(v[:t.between(2, len(v), "values")])
        grid = list(ParameterGrid(params))
    train = bool(t.draw(2, "train scores"))
    fail = t.chance(30, "failing inference")
    err = t.choice((np.nan, "raise", -7.0), "error_score")
    w.stats.note = "%s on %s|%s %s, n_jobs=%d, %d folds%s; %s; %s" % (
        s.kind, p.name, op, params if op == "grid" else "", jobs,
        len(splits), ", one inference fails (error_score=%r)" % (err,)
        if fail else "", s.describe(), k.describe())
    # -- alone
    want, steps = {}, 0
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        for c, g in enumerate(grid):
            for f, (a, b) in enumerate(splits):
                l = s.build(**g)
                try:
                    l.fit(take(X, a), take(Y, a))
                    want[c, f] = (score(l, take(X, b), take(Y, b)),
                                  score(l, take(X, a), take(Y, a)),
                                  l.w.copy())
                except (ValueError, IndexError) as e:
                    raise Reject("a fold cannot be trained: %r" % e)
        steps = r.steps
        best = int(np.argmax([np.mean([want[c, f][0]
                                       for f in range(len(splits))])
                              for c in range(len(grid))]))
        full = s.build(**grid[best])
        try:
            full.fit(X, Y)
        except (ValueError, IndexError) as e:
            raise Reject("cannot be trained: %r" % e)
    # -- in the pool
    w.backend = k
    data = deep(X), deep(Y)
    before = deep(vars(base))
    state = {"left": t.draw(steps, "fails at") if fail else None,
             "boom": None}

    def strike(world, kind, detail):
        if state["left"] is None or kind == "pool" or not k.in_worker:
            return
        state["left"] -= 1
        if state["left"] < 0:
            state["left"] = None
            state["boom"] = kind
            world.fault("inference fails in a worker", kind)
            raise Lost("4711")
    w.hooks.append(strike)

    def go():
        if op == "grid":
            gs = GridSearchCV(base, params, cv=splits, n_jobs=jobs,
                              error_score=err, return_train_score=train)
            return gs.fit(X, Y)
        if op == "cross_val_score":
            return cross_val_score(base, X, Y, cv=splits, n_jobs=jobs,
                                   error_score=err)
        return cross_validate(base, X, Y, cv=splits, n_jobs=jobs,
                              return_train_score=train, error_score=err,
                              return_estimator=True)
    got, failed = None, None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = guard(w, op, go, Lost, ValueError, ArithmeticError)
        except Lost as e:
            failed = e
        except (ValueError, ArithmeticError) as e:
            if not (state["boom"] and "fits failed" in str(e)):
                raise Violation("unexpected-exception", "%s raised %r"
                                % (op, e))
            failed = e
    w.hooks.remove(strike)
    need(same_data(data[0], X) and same_data(data[1], Y), "data-modified",
         "the data changed")
    d = difference(before, vars(base))
    need(d is None, "estimator-modified", "%s changed the estimator itself: "
         "%s", op, d)
    need(failed is None or state["boom"], "unexpected-exception",
         "%s raised %r although nothing failed", op, failed)
    if failed is not None:
        w.stats.nontrivial = True
        return
    bad = []                    # (candidate, fold) that do not count

    def check(c, f, score, tr=None):
        if state["boom"] and not bad and (
                np.isnan(score) or score == -7.0
                or (tr is not None and (np.isnan(tr) or tr == -7.0))):
            # exactly one training or scoring may be affected
            bad.append((c, f))
            return
        need(close(score, want[c, f][0], 1e-7, 1e-7), "wrong-score",
             "fold %d of %s scores %r, a learner trained alone on it %r",
             f, grid[c], score, want[c, f][0])
        if tr is not None:
            need(close(tr, want[c, f][1], 1e-7, 1e-7), "wrong-score",
                 "fold %d of %s scores %r on its training data, a learner "
                 "trained alone %r", f, grid[c], tr, want[c, f][1])
    if op == "grid":
        res = got.cv_results_
        need([dict(g) for g in res["params"]] == grid, "wrong-candidates",
             "%r for %r", res["params"], grid)
        for c in range(len(grid)):
            for f in range(len(splits)):
                check(c, f, res["split%d_test_score" % f][c],
                      res["split%d_train_score" % f][c] if train else None)
        if not state["boom"]:
            means = res["mean_test_score"]
            if np.sum(means >= means.max() - 1e-9) == 1:
                need(got.best_index_ == best, "wrong-score", "best candidate "
                     "%d, expected %d", got.best_index_, best)
            if got.best_index_ == best:
                b = got.best_estimator_
                need(b is not base and b.model is not base.model,
                     "estimator-modified", "the estimator itself was trained")
                need(close(b.w, full.w, 1e-7, 1e-8), "wrong-weights",
                     "the refitted estimator has w=%r, a fresh learner %r",
                     b.w, full.w)
                with silence_points():
                    y1, y2 = got.predict(X), full.predict(X)
                    need(close(got.score(X, Y), full.score(X, Y), 1e-9,
                               1e-9), "wrong-score", "GridSearchCV.score")
                need(all(same_data(np.asarray(a), np.asarray(b))
                         for a, b in zip(y1, y2)), "wrong-labels",
                     "the refitted estimator predicts %r, a fresh one %r",
                     y1, y2)
    elif op == "cross_val_score":
        need(len(got) == len(splits), "wrong-score", "%r", got)
        for f, v in enumerate(got):
            check(0, f, v)
    else:
        for f, v in enumerate(got["test_score"]):
            check(0, f, v, got["train_score"][f] if train else None)
            e = got["estimator"][f]
            if (0, f) not in bad:
                need(e is not base and close(e.w, want[0, f][2], 1e-7, 1e-8),
                     "wrong-weights", "fold %d has w=%r, a learner trained "
                     "alone %r", f, e.w, want[0, f][2])
    survives(w, base, t)
    w.stats.nontrivial = k.tasks > 1 or jobs == 1
