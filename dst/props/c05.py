"""C05: checkpointing is faithful, on time, and does not disturb training."""
import os

import numpy as np

from dst import workloads as W
from dst.workloads import close
from dst.common import (Workers, deep, draw_workers, guard, need, same_data,
                        sub_world)
from dst.core import silence_points
from dst.disk import Disk
from dst.latent import make_latent
from dst.snap import difference, snapshot, state_of
from pystruct.utils import SaveLogger

TIERS = {"quick": {"runs": 3000, "wall": 80, "min": 500},
         "thorough": {"runs": 60000, "wall": 780, "min": 2000}}
RULE = ("a run trains the same learner with and without a SaveLogger on a "
        "simulated disk that is slow, makes legal short writes and short "
        "reads, with worker pools; after every logger call the files are "
        "compared with the live learner, the save schedule and the state of "
        "a training stopped after the same number of iterations; "
        "non-trivial when at least one checkpoint was written and reloaded")
REAL = ["pystruct SaveLogger, learners, models, inference", "pickle, io "
        "buffering", "real files in a scratch directory", "cvxopt QP/LP",
        "joblib front end"]
STUB = ["raw file, rename, unlink, fsync (simulated disk)", "clock",
        "joblib worker pool"]


class Audited(SaveLogger):
    """Looks at the disk right after every call."""
    world = disk = None
    calls = ()

    def __getstate__(self):
        return {"file_name": self.file_name, "save_every": self.save_every,
                "verbose": self.verbose}

    def start(self, world, disk):
        self.world, self.disk = world, disk
        self.calls, self.saved, self.before = [], {}, {}

    def __call__(self, learner, iteration=0):
        if self.world is None:
            return SaveLogger.__call__(self, learner, iteration)
        w, d = self.world, self.disk
        self.calls.append(iteration)
        old = snapshot(learner)
        cache = getattr(learner, "inference_cache_", None)
        entries = None if cache is None else [list(c) for c in cache]
        files, ops = contents(d), d.ops
        SaveLogger.__call__(self, learner, iteration)
        r = difference(old, state_of(learner))
        need(r is None, "learner-modified", "saving at iteration %s changed "
             "the learner: %s", iteration, r)
        now = getattr(learner, "inference_cache_", None)
        need(now is cache and (cache is None or len(now) == len(entries)
             and all(len(a) == len(b) and all(p is q for p, q in zip(a, b))
                     for a, b in zip(now, entries))),
             "learner-modified", "saving changed the inference cache")
        due = iteration == 'final' or iteration % self.save_every == 0
        name = self.file_name.replace("%d", str(iteration))
        if not due:
            need(contents(d) == files, "saved-too-often",
                 "iteration %s with save_every=%d changed the files",
                 iteration, self.save_every)
            return
        need(os.path.exists(name), "not-saved", "iteration %s with "
             "save_every=%d: %s was not written", iteration, self.save_every,
             os.path.basename(name))
        for other, c in contents(d).items():
            need(d.path(other) == name or files.get(other) == c,
                 "stray-file", "saving iteration %s changed %s", iteration,
                 other)
        got = guard(w, "load", lambda: SaveLogger(name).load())
        need(type(got) is type(learner), "wrong-checkpoint",
             "%s holds a %s", name, type(got).__name__)
        r = difference(old, state_of(got))
        need(r is None, "wrong-checkpoint", "the checkpoint of iteration %s "
             "differs from the learner: %s", iteration, r)
        self.saved[iteration] = got


def contents(d):
    d.suspended += 1
    try:
        out = {}
        for f in d.listing():
            with open(d.path(f), "rb") as h:
                out[f] = h.read()
        return out
    finally:
        d.suspended -= 1


def setup(t):
    if t.chance(15, "latent"):
        s = make_latent(t)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 5)
    else:
        s = W.make_setup(t, learners=("nslack", "oneslack", "subgradient",
                                      "fw", "fwbatch"), max_n=4)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 8)
    s.cfg["n_jobs"] = 1
    if s.kind not in ("fw", "fwbatch"):
        s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    if s.kind == "subgradient" and s.cfg["n_jobs"] != 1:
        s.cfg["batch_size"] = None
    return s


def run(w):
    t = w.tape
    s = setup(t)
    latent = s.kind == "latent_ssvm"
    every = t.choice((1, 2, 3, 10), "save every")
    name = t.choice(("model.pickle", "model-%d.pickle"), "file name")
    k = draw_workers(t)
    d = w.disk = Disk(w)
    for i in range(1, 40):
        if t.chance(15, "short write"):
            d.plan[i] = "short"
        if t.chance(15, "short read"):
            d.read_plan[i] = "short"
    w.stats.note = "%s on %s|save_every=%d %s; %s; %s" % (
        s.kind, s.problem.name, every, name, s.describe(), k.describe())
    log = Audited(d.path(name), every)
    log.start(w, d)
    l = s.build(outer_logger=log) if latent else s.build(logger=log)
    data = deep(s.problem.X), deep(s.problem.Y)
    w.backend = k
    guard(w, "fit with a logger", lambda: s.fit(l))
    need(same_data(data[0], s.problem.X) and same_data(data[1], s.problem.Y),
         "data-modified", "the training data changed")
    # -- the calls
    its = [i for i in log.calls if i != 'final']
    need(its == list(range(len(its))), "wrong-calls",
         "the logger was called with %r", log.calls)
    if not latent:
        need(log.calls.count('final') == 1 and log.calls[-1] == 'final',
             "wrong-calls", "the logger was called with %r: not exactly one "
             "'final' at the end", log.calls)
        need(len(its) <= s.cfg["max_iter"], "wrong-calls",
             "%d calls in %d iterations", len(its), s.cfg["max_iter"])
    # -- not disturbed
    with sub_world(w, Workers(None, cpus=k.cpus)):
        twin = s.build()
        guard(w, "fit", lambda: s.fit(twin))
    a, b = (l.base_ssvm, twin.base_ssvm) if latent else (l, twin)
    need(close(a.w, b.w, rtol=1e-7, atol=1e-9), "training-disturbed",
         "with checkpoints w=%r, without %r", a.w, b.w)
    ca, cb = W.curves(a), W.curves(b)
    need(sorted(ca) == sorted(cb) and all(
        close(ca[x], cb[x], rtol=1e-7, atol=1e-9) for x in ca),
        "training-disturbed", "with checkpoints the curves are %r, without "
        "%r", ca, cb)
    need(len(a.timestamps_) == len(b.timestamps_), "training-disturbed",
         "%d and %d timestamps", len(a.timestamps_), len(b.timestamps_))
    # -- a checkpoint is the state after its iteration
    mids = [i for i in log.saved if i != 'final']
    if mids:
        i = mids[t.draw(len(mids), "look at")]
        with sub_world(w, Workers(None, cpus=k.cpus)):
            part = s.build(**({} if latent else {"max_iter": i + 1}))
            if latent:
                part.latent_iter = i + 1
            guard(w, "fit", lambda: s.fit(part))
        got = log.saved[i]
        need(close(got.w, part.w, rtol=1e-7, atol=1e-9), "wrong-checkpoint",
             "the checkpoint of iteration %d has w=%r, training stopped "
             "there %r", i, got.w, part.w)
        if not latent:
            check_curves(s, i, got, part)
    # -- the reloaded learner works
    some = log.saved[sorted(log.saved, key=str)[-1]]
    X = list(s.problem.Xt)
    some.n_jobs = 1
    p = guard(w, "predict after loading", lambda: some.predict(X))
    with silence_points():
        src = l if 'final' in log.saved or latent else None
        if src is not None and close(some.w, src.w, 0, 0):
            want = [src.model.inference(x, src.w) for x in X]
            if hasattr(src.model, "label_from_latent"):
                want = [src.model.label_from_latent(h) for h in want]
            need(len(p) == len(want) and all(W.same_labels(x, y)
                                             for x, y in zip(p, want)),
                 "wrong-prediction", "the reloaded learner predicts %r, the "
                 "original %r", p, want)
    w.stats.nontrivial = bool(log.saved)
    w.probe("checkpoints written", len(log.saved))


def check_curves(s, i, got, part):
    """Everything up to and including iteration i is in the checkpoint."""
    a, b = W.curves(got), W.curves(part)
    for name in a:
        if name != "loss_curve_":
            cut = b[name][:-1]            # the final objective
            need(close(a[name], cut, rtol=1e-7, atol=1e-9),
                 "wrong-checkpoint", "in the checkpoint of iteration %d "
                 "%s=%r, training stopped there %r", i, name, a[name], cut)
        else:
            need(close(a[name], b[name], rtol=1e-7, atol=1e-9),
                 "wrong-checkpoint", "in the checkpoint of iteration %d "
                 "%s=%r, training stopped there %r", i, name, a[name],
                 b[name])
