"""C18: watching a training does not change it."""
import copy
import errno
import io
import pickle
import sys

import numpy as np
from sklearn.base import clone

from dst import workloads as W
from dst.common import (Reject, Workers, deep, draw_workers, guard, need,
                        same_data, sub_world)
from dst.core import silence_points
from dst.latent import make_latent
from dst.snap import difference

TIERS = {"quick": {"runs": 2500, "wall": 80, "min": 400},
         "thorough": {"runs": 50000, "wall": 780, "min": 2000}}
RULE = ("a run trains a learner silently and unobserved, and again with a "
        "drawn verbosity, loss curve and a logger that looks at the learner "
        "in drawn ways (predicts, scores, prints, copies, pickles, clones it "
        "or calls the model directly) at every iteration, in a drawn worker "
        "pool, on a terminal that is slow or whose n-th write fails; "
        "non-trivial when something was printed or looked at")
REAL = ["pystruct learners, models, inference", "cvxopt QP/LP", "ad3",
        "joblib front end", "pickle, copy, sklearn clone"]
STUB = ["terminal (standard output)", "joblib worker pool", "clock"]

LOOKS = ("predict", "score", "repr", "deepcopy", "pickle", "clone",
         "inference", "loss-augmented", "parameters", "other data")


class Terminal(io.TextIOBase):
    """Standard output that may be slow or break."""

    def __init__(self, w, t, broken):
        self.w, self.written, self.fired = w, 0, None
        self.slow = t.choice((0, 1e-3, 5.0), "slow terminal") if t else 0
        self.at = self.exc = None
        if broken:
            self.at = 1 + t.draw(t.choice((8, 60, 400), "written"), "write")
            self.exc = t.choice((BrokenPipeError(errno.EPIPE, "Broken pipe"),
                                 OSError(errno.ENOSPC, "No space left"),
                                 OSError(errno.EIO, "I/O error")), "error")

    def writable(self):
        return True

    def write(self, text):
        if self.w.quiet_points:
            return len(text)
        self.written += 1
        if self.slow:
            self.w.clock.advance(self.slow)
            self.w.fault("slow terminal")
        if self.written == self.at:
            self.fired = self.exc
            self.w.fault("terminal breaks", self.exc.strerror)
            raise self.exc
        return len(text)


class Spy:
    """A logger that uses the learner."""

    def __init__(self, w, t, s):
        self.w, self.t, self.s = w, t, s
        self.looks = [k for k in LOOKS if t.draw(2, k)]
        self.every = t.choice((1, 2), "look every")
        self.used = 0
        self.calls = []

    def __getstate__(self):
        return {}

    def __repr__(self):
        return "Spy()"

    def __deepcopy__(self, memo):
        return self

    def __call__(self, l, it):
        self.calls.append(it)
        if it != 'final' and it % self.every:
            return
        p = self.s.problem
        model = l.model
        i = len(self.calls) % len(p.X)
        for k in self.looks:
            self.used += 1
            if k == "predict":
                l.predict(p.X)
            elif k == "score" and not (self.s.base if hasattr(
                    self.s, "base") else None):
                l.score(p.X, p.Y)
            elif k == "repr":
                repr(l), str(l), repr(model)
            elif k == "deepcopy":
                copy.deepcopy(l)
            elif k == "pickle":
                pickle.loads(pickle.dumps(l, -1))
            elif k == "clone":
                clone(l)
            elif k == "inference":
                model.inference(p.X[i], l.w)
            elif k == "loss-augmented" and not hasattr(self.s, "base"):
                model.loss_augmented_inference(p.X[i], p.Y[i], l.w)
            elif k == "parameters":
                l.get_params()
            elif k == "other data" and len(p.Xt):
                l.predict(p.Xt)


# not part of the comparison: what was switched on, and the clock
APART = ("verbose", "show_loss_every", "logger", "loss_curve_",
         "timestamps_", "inference_calls", "inference_cache_",
         "uniform_class_weight")


KNOWN = ("w", "objective_curve_", "primal_objective_curve_", "constraints_",
         "cached_constraint_", "alphas")


def state(l, other):
    """What training left in both learners (and what users know of)."""
    out = {}
    for k, v in vars(l).items():
        if k in APART or not (hasattr(other, k) or k in KNOWN):
            continue
        if k == "model" or k == "base_ssvm":
            v = state(v, getattr(other, k))
        out[k] = v
    return out


def setup(t):
    if t.chance(20, "latent"):
        s = make_latent(t, max_n=4)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 8)
    else:
        s = W.make_setup(t, max_n=4)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 8)
        W.maybe_negative(t, s)
    jobs = t.choice((1, 2, 3), "n_jobs")
    if s.kind in ("fw", "fwbatch"):
        jobs = 1
    if s.kind == "subgradient" and jobs != 1:
        s.cfg["batch_size"] = None
    s.cfg["n_jobs"] = jobs
    if s.kind == "subgradient":
        s.cfg["shuffle"] = bool(t.draw(2, "shuffle"))
    s.cfg.pop("show_loss_every", None)
    return s


def run(w):
    t = w.tape
    s = setup(t)
    p = s.problem
    k = draw_workers(t)
    verbose = t.choice((1, 0, 2, 3, 4, 6, 11), "verbose")
    every = t.choice((0, 1, 2, 3), "loss every")
    broken = bool(t.chance(25, "terminal breaks"))
    spy = Spy(w, t, s)
    w.stats.note = "%s on %s|verbose=%d, show_loss_every=%d, looks %r; %s; " \
        "%s" % (s.kind, p.name, verbose, every, spy.looks, s.describe(),
                k.describe())
    data = deep(p.X), deep(p.Y)
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        np.random.seed(5)
        ref = s.build()
        guard(r, "silent fit", lambda: s.fit(ref))
        generator = np.random.get_state()
    # -- the same, watched
    w.backend = k
    np.random.seed(5)
    over = {"verbose": verbose}
    if s.kind == "perceptron":
        pass
    elif s.kind == "latent_ssvm":
        over["outer_logger"] = spy
    else:
        over["logger"] = spy
    if s.kind not in ("perceptron", "latent_ssvm"):
        over["show_loss_every"] = every
    l = s.build(**over)
    term = Terminal(w, t, broken)
    old, sys.stdout = sys.stdout, term
    got = None
    try:
        guard(w, "watched fit", lambda: s.fit(l), OSError)
    except OSError as e:
        got = e
    finally:
        sys.stdout = old
    if term.fired is not None or got is not None:
        need(got is not None, "failure-swallowed", "fit returned although "
             "write %d to the terminal failed", term.written)
        need(got is term.fired, "unexpected-exception", "fit raised %r "
             "instead of %r", got, term.fired)
        # the terminal is back
        np.random.seed(5)
        spy.calls = []
        l2 = s.build(**over) if "ubgradient" in s.kind or (
            getattr(s, "base", None) is not None
            and "Subgradient" in s.base.__name__) else l
        guard(w, "fit after the failure", lambda: s.fit(l2))
        l = l2
    need(same_data(data[0], p.X) and same_data(data[1], p.Y),
         "data-modified", "the training data changed")
    a, b = state(ref, l), state(l, ref)
    d = difference(a, b)
    need(d is None, "watching-disturbs", "the watched training differs from "
         "the silent one: %s", d)
    need(same_data(generator, np.random.get_state()), "watching-disturbs",
         "numpy's global generator is elsewhere than after a silent fit")
    for name, v in over.items():
        if s.kind != "latent_ssvm":
            need(getattr(l, name) is v or getattr(l, name) == v,
                 "watching-disturbs", "%s=%r became %r", name, v,
                 getattr(l, name))
    for m in ("timestamps_",):
        if hasattr(ref, m):
            need(len(getattr(ref, m)) == len(getattr(l, m)),
                 "watching-disturbs", "%d and %d timestamps",
                 len(getattr(ref, m)), len(getattr(l, m)))
    if hasattr(l, "loss_curve_") and s.kind != "perceptron":
        need(every != 0, "watching-disturbs", "a loss curve without "
             "show_loss_every")
    w.probe("writes to the terminal", term.written)
    w.probe("looks", spy.used)
    w.stats.nontrivial = term.written + spy.used > 0
