"""C10: training does not depend on the clock; timestamps_ measure it."""
import numpy as np

from dst import workloads as W
from dst.workloads import close
from dst.common import (Reject, Violation, Workers, draw_workers, finite,
                        guard, need, sub_world)
from dst.latent import make_latent
from dst.props.c06 import Stopper, warm

TIERS = {"quick": {"runs": 4000, "wall": 80, "min": 500},
         "thorough": {"runs": 80000, "wall": 780, "min": 2000}}
RULE = ("a run trains under a virtual clock on which every seam takes a drawn "
        "amount of time, with clock faults (jumps in both directions, a "
        "frozen clock, slow inference, a slow solver, idle time between a "
        "fit and its continuation) and compares with the same training "
        "under a steady clock; without clock faults every entry of "
        "timestamps_ has to lie between the virtual times of the logger "
        "calls around it; non-trivial when a clock fault fired or the "
        "timestamps were compared")
REAL = ["pystruct learners, models, inference", "cvxopt QP/LP", "ad3",
        "joblib front end"]
STUB = ["clock (virtual)", "duration of every seam crossing",
        "joblib worker pool"]


class Recorder:
    """The true elapsed time and the number of timestamps at every call."""

    def __init__(self):
        self.rows = []

    def __call__(self, learner, iteration=0):
        w = W.World.current
        self.rows.append((iteration, w.clock.mono,
                          len(learner.timestamps_)))


def setup(t):
    if t.chance(15, "latent"):
        s = make_latent(t, learners=("latent_subgradient",))
    else:
        s = W.make_setup(t, learners=("nslack", "oneslack", "subgradient",
                                      "fw", "fwbatch"), max_n=4)
    s.cfg["max_iter"] = min(s.cfg["max_iter"], 10)
    s.cfg["n_jobs"] = 1
    if s.kind not in ("fw", "fwbatch"):
        s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    if s.kind == "subgradient" and s.cfg["n_jobs"] != 1:
        s.cfg["batch_size"] = None
    return s


def run(w):
    t = w.tape
    s = setup(t)
    k = draw_workers(t)
    k.gap = 0
    with sub_world(w, Workers(None, cpus=k.cpus)) as r:
        twin = s.build()
        guard(r, "fit", lambda: s.fit(twin))
    mode = t.choice(("measure", "jumps", "frozen"), "clock")
    lat = {}
    scale = t.choice((1.0, 1e-3, 50.0), "time scale")

    def latency(kind):
        if kind not in lat:
            lat[kind] = scale * t.choice((0.01, 1.0, 0.0, 30.0),
                                         "duration of " + kind)
        return lat[kind]
    w.latency = latency
    w.backend = k
    start = t.choice((1e9, 0.0, 4e9), "epoch")
    w.clock.offset = start
    jumps = {}
    if mode == "jumps":
        for _ in range(t.between(1, 5, "jumps")):
            jumps[1 + t.draw(60, "at")] = t.choice(
                (-3600.0, 3600.0, -1e-3, 1e9, -2e9), "jump")
    at = [0]

    def jump(world, kind, detail):
        at[0] += 1
        if at[0] in jumps:
            world.clock.jump(jumps[at[0]])
            world.fault("clock jump", jumps[at[0]])
        if mode == "frozen" and at[0] == 5 and not world.clock.frozen:
            world.clock.freeze()
            world.fault("clock frozen")
    w.hooks.append(jump)
    rec = Recorder()
    l = s.build(logger=rec)
    w.stats.note = "%s on %s|%s; %s; %s" % (s.kind, s.problem.name, mode,
                                            s.describe(), k.describe())
    t0 = w.clock.mono
    before_reads = w.clock.reads
    cut = Stopper(w, k)
    short = mode == "measure" and t.choice((None, "no pass", "Ctrl-C"),
                                           "stopped early")
    passes = l.max_iter
    if short == "no pass":
        l.max_iter = 0
    elif short:
        cut.arm(t.draw(t.choice((3, 40), "soon"), "stop at"),
                KeyboardInterrupt(), "KeyboardInterrupt")
    try:
        guard(w, "fit", lambda: s.fit(l), KeyboardInterrupt)
    except KeyboardInterrupt:
        raise Reject("interrupted outside the training loop")
    cut.disarm()
    l.max_iter = passes
    t1 = w.clock.mono
    need(w.clock.reads > before_reads, "clock-not-read",
         "fit never looked at the (simulated) time")
    if not short:
        same(l, twin)
    ts = list(l.timestamps_)
    need(finite(ts), "timestamps", "timestamps_ = %r", ts)
    if mode != "measure":
        w.stats.nontrivial = any(w.stats.faults.values())
        if not w.stats.nontrivial:
            raise Reject("the clock fault was not reached")
        return
    check_stamps(s, ts, rec.rows, start, t0, t1, 0.0, 1)
    # -- continue after a break
    if s.kind in ("oneslack", "nslack", "subgradient", "latent_subgradient"):
        idle = t.choice((1000.0, 0.0, 1e6), "idle time")
        w.clock.advance(idle)
        w.fault("idle before the warm start", idle)
        del rec.rows[:]
        t2 = w.clock.mono
        guard(w, "warm start", lambda: s.fit(l, **warm(s, l)))
        ts2 = list(l.timestamps_)
        need(len(ts2) > len(ts) and close(ts2[1:len(ts)], ts[1:], 1e-9, 1e-5),
             "timestamps", "the warm start changed the earlier timestamps "
             "from %r to %r", ts[1:], ts2[1:])
        check_stamps(s, ts2, rec.rows, None, t2, w.clock.mono,
                     ts[-1], len(ts))
    w.stats.nontrivial = True


def same(l, twin):
    need(close(l.w, twin.w, 1e-8, 1e-9), "clock-dependent",
         "w=%r, under a steady clock %r", l.w, twin.w)
    a, b = W.curves(l), W.curves(twin)
    need(sorted(a) == sorted(b) and all(
        len(a[x]) == len(b[x]) and close(a[x], b[x], 1e-7, 1e-9) for x in a),
        "clock-dependent", "the curves are %r, under a steady clock %r", a, b)
    need(len(l.timestamps_) == len(twin.timestamps_), "clock-dependent",
         "%d timestamps, under a steady clock %d", len(l.timestamps_),
         len(twin.timestamps_))


def check_stamps(s, ts, rows, start, t0, t1, base, first):
    """Entry i of timestamps_ was taken between the logger calls around it."""
    eps = 1e-5          # wall-clock values near 4e9 have this resolution
    if start is not None:
        need(start + t0 - eps <= ts[0] <= start + t1 + eps, "timestamps",
             "training started at %r, timestamps_[0]=%r", start + t0, ts[0])
    for a, b in zip(ts[1:], ts[2:]):
        need(b >= a - eps, "timestamps", "elapsed times go backwards: %r",
             ts[1:])
    # (number of timestamps, elapsed time) at known moments
    marks = [(first, t0)] + [(n, at) for _, at, n in rows] + [(len(ts), t1)]
    for (n0, lo), (n1, hi) in zip(marks, marks[1:]):
        for i in range(n0, n1):
            need(base + lo - t0 - eps <= ts[i] <= base + hi - t0 + eps,
                 "timestamps", "timestamps_[%d]=%r, but it was recorded "
                 "between %r and %r seconds of training", i, ts[i],
                 base + lo - t0, base + hi - t0)
