"""C19: plot_learning draws what training recorded."""
import io
import re
import sys
import types

import numpy as np

from dst import workloads as W
from dst.common import (Reject, deep, draw_workers, finite, guard, need)
from dst.core import SimCrash
from dst.disk import Disk
from dst.latent import make_latent
from dst.props.c06 import Lost, Stopper, warm
from dst.snap import difference, snapshot, state_of
from pystruct import plot_learning as PL
from pystruct.utils import SaveLogger

TIERS = {"quick": {"runs": 2500, "wall": 70, "min": 400},
         "thorough": {"runs": 50000, "wall": 780, "min": 2000}}
RULE = ("a run trains any learner in a drawn worker pool, stops it (Ctrl-C, "
        "failing inference, iteration limit, process crash at any seam), "
        "possibly continues with a warm start, and plots the live learner, "
        "the learner from inside its logger, or the checkpoint a crash left "
        "behind; what is drawn is compared with what was recorded; "
        "non-trivial when a plot was drawn")
REAL = ["pystruct plot_learning, SaveLogger, learners, models, inference",
        "cvxopt QP/LP", "joblib front end"]
STUB = ["matplotlib (records what is drawn, checks shapes)", "clock",
        "joblib worker pool", "raw files (simulated disk)"]


class Axes:
    def __init__(self, fig):
        self.fig, self.curves, self.labels = fig, [], {}

    def plot(self, *a, **k):
        fmt = ""
        a = list(a)
        if a and isinstance(a[-1], str):
            fmt = a.pop()
        if len(a) == 1:
            y = np.asarray(a[0], dtype=float)
            x = None
        else:
            x, y = (np.asarray(b, dtype=float) for b in a[:2])
            if x.shape[:1] != y.shape[:1]:
                raise ValueError("x and y must have same first dimension, "
                                 "but have shapes %s and %s"
                                 % (x.shape, y.shape))
        if y.ndim != 1:
            raise ValueError("x and y can be no greater than 2D")
        self.curves.append((x, y, k.get("label"), fmt))

    semilogy = plot

    def set_xlabel(self, s, *a, **k):
        self.labels["x"] = s

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Pyplot(types.ModuleType):
    """Stands in for matplotlib.pyplot."""

    def __init__(self):
        types.ModuleType.__init__(self, "matplotlib.pyplot")
        self.figures, self.shown = [], 0

    def figure(self, *a, **k):
        self.figures.append(Figure())
        return self.figures[-1]

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        axes = [f.add_subplot() for _ in range(nrows * ncols)]
        if len(axes) == 1:
            return f, axes[0]
        axes = np.array(axes, dtype=object)
        return f, (axes if 1 in (nrows, ncols)
                   else axes.reshape(nrows, ncols))

    def gca(self):
        f = self.figures[-1] if self.figures else self.figure()
        return f.axes[-1] if f.axes else f.add_subplot()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Screen:
    """Runs plot_learning on the stub and collects what it did."""

    def __init__(self, w):
        self.w = w

    def run(self, what, fn):
        plt = Pyplot()
        top = types.ModuleType("matplotlib")
        top.pyplot, top.__path__ = plt, []
        keep = {n: sys.modules.get(n) for n in ("matplotlib",
                                                "matplotlib.pyplot")}
        sys.modules["matplotlib"] = top
        sys.modules["matplotlib.pyplot"] = plt
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            guard(self.w, what, fn)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = out
            for n, m in keep.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
        return plt, text


class Watch(SaveLogger):
    """Saves, notes when entries were recorded, and may plot."""
    world = screen = plots = None
    time = True

    def start(self, w, screen, every):
        self.world, self.screen, self.plots = w, screen, every
        self.rows = []

    def __getstate__(self):
        return {"file_name": self.file_name, "save_every": self.save_every,
                "verbose": self.verbose}

    def __call__(self, l, it=0):
        if self.world is None:
            return SaveLogger.__call__(self, l, it)
        self.rows.append((entries(l), self.world.clock.mono))
        if self.plots and it != 'final' and it % self.plots == 0:
            judge(self.world, self.screen, "plot_learning in the logger", l,
                  self.time, None)
        SaveLogger.__call__(self, l, it)


def entries(l):
    return len(getattr(l, "objective_curve_", ()))


def same(x, y):
    return x.shape == np.shape(y) and bool(np.array_equal(x, y))


def judge(w, screen, what, l, time, rows, t0=None, fn=None):
    old = snapshot(l)
    plt, text = screen.run(what, fn or (
        lambda: PL.plot_learning(l, time=time)))
    d = difference(old, state_of(l))
    need(d is None, "learner-modified", "%s changed the learner: %s", what, d)
    need(plt.shown == 1 and len(plt.figures) == 1, "not-shown",
         "%s: %d figures, shown %d times", what, len(plt.figures), plt.shown)
    l = getattr(l, "base_ssvm", l)
    curves = [c for a in plt.figures[0].axes for c in a.curves]
    timed = time and hasattr(l, "timestamps_")
    for x, y, label, _ in curves:
        if x is not None and timed:
            # no time after the last stamp, none before the start
            need(len(x) == 0 or (x.min() >= -1e-9 and x.max() * 60
                 <= max(l.timestamps_[1:], default=0) + 1e-4),
                 "wrong-times", "%s: %r is drawn at minutes %r, the "
                 "timestamps are %r", what, label, x, l.timestamps_)
            need(bool(np.all(np.diff(x) >= -1e-6)), "wrong-times",
                 "%s: %r is drawn at minutes %r", what, label, x)
    obj = getattr(l, "objective_curve_", None)
    if obj:
        x = find(what, curves, "dual", obj)
        need(x is not None, "wrong-curve", "%s: the dual is drawn without "
             "times", what)
        if not timed:
            need(same(x, np.arange(len(obj))), "wrong-times", "%s: the dual "
                 "is drawn at %r", what, x)
        elif rows is not None:
            aligned(what, x * 60, rows, t0)
        need("Iterations: %d" % len(obj) in text and
             "Objective: %f" % obj[-1] in text, "wrong-report",
             "%s printed %r", what, text[-300:])
        primal = getattr(l, "primal_objective_curve_", None)
        if primal:
            cached = getattr(l, "cached_constraint_", None)
            px = find(what, curves, None, primal)
            need(same(px, x), "wrong-times", "%s: the primal is drawn at %r, "
                 "the dual at %r", what, px, x)
            if cached is not None:
                run = [i for i, c in enumerate(cached) if not c]
                rx = find(what, curves, "primal", [primal[i] for i in run])
                need(same(rx, x[run]), "wrong-times", "%s: inference runs "
                     "are drawn at %r, not %r", what, rx, x[run])
                if run:
                    m = re.search(r"Gap: (\S+)", text)
                    need(m is not None and "%f" % (primal[run[-1]] - obj[-1])
                         == m.group(1), "wrong-report", "%s printed %r, the "
                         "gap is %f", what, m and m.group(0),
                         primal[run[-1]] - obj[-1])
    loss = getattr(l, "loss_curve_", None)
    if loss is not None and len(loss):
        x = find(what, curves, None, loss)
        if obj and rows is not None:
            # a loss belongs to the iteration it was computed in
            every = l.show_loss_every
            dual = find(what, curves, "dual", obj)
            need(x is not None and same(x, dual[::every][:len(loss)]),
                 "wrong-times", "%s: the loss of every %d iterations is "
                 "drawn at %r, the dual at %r", what, every, x, dual)
    w.stats.nontrivial = True
    w.probe("plots")


def find(what, curves, label, y):
    """x of the curve that shows y."""
    hit = [c for c in curves if same(c[1], np.asarray(y, dtype=float))
           and (label is None or c[2] is None or label in c[2])]
    need(hit, "wrong-curve", "%s: %s %r is not drawn, but %r", what,
         label or "a curve", y, [(c[2], c[1]) for c in curves])
    return hit[0][0]


def aligned(what, x, rows, t0):
    """Entry i is drawn between its recording and that of the next one."""
    n = len(x)
    lo, hi = np.full(n, 0.0), np.full(n, np.inf)
    last = 0.0
    for k, at in rows:
        lo[min(k, n):] = np.maximum(lo[min(k, n):], last)
        last = at - t0
    # entry i was recorded after the logger call that saw at most i entries
    for k, at in rows:
        lo[k:] = np.maximum(lo[k:], at - t0)
    # entry i + 1 was recorded before the first call that saw i + 2 entries
    for k, at in rows[::-1]:
        hi[:max(k - 1, 0)] = np.minimum(hi[:max(k - 1, 0)], at - t0)
    for i in range(n - 1):
        need(lo[i] - 1e-4 <= x[i] <= hi[i] + 1e-4, "wrong-times",
             "%s: entry %d of the dual is drawn at second %r, it was "
             "recorded between %r and %r", what, i, x[i], lo[i], hi[i])


def setup(t):
    if t.chance(25, "latent"):
        s = make_latent(t, max_n=3)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 8)
    else:
        s = W.make_setup(t, max_n=4)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 10)
        W.maybe_negative(t, s)
    if s.kind not in ("perceptron", "latent_ssvm"):
        s.cfg["show_loss_every"] = t.choice((0, 1, 2, 3), "loss every")
    s.cfg["n_jobs"] = 1
    if s.kind not in ("fw", "fwbatch"):
        s.cfg["n_jobs"] = t.choice((1, 2), "n_jobs")
    if s.kind == "subgradient" and s.cfg["n_jobs"] != 1:
        s.cfg["batch_size"] = None
    return s


def run(w):
    t = w.tape
    s = setup(t)
    k = draw_workers(t)
    w.backend = k
    d = w.disk = Disk(w)
    screen = Screen(w)
    plots = t.choice((0, 1, 2), "plot in the logger")
    time = bool(t.choice((1, 0), "over time"))
    log = Watch(d.path("m.pickle"), t.choice((1, 2), "save every"))
    log.start(w, screen, plots)
    log.time = time
    over = {}
    if s.kind != "perceptron":
        over["outer_logger" if s.kind == "latent_ssvm" else "logger"] = log
    l = s.build(**over)
    durations = {}

    def latency(kind):
        if kind not in durations:
            durations[kind] = t.choice((0.5, 0.0, 20.0), "duration")
        return durations[kind]
    w.latency = latency
    stop = Stopper(w, k)
    how = t.choice(("none", "interrupt", "crash", "failure", "limit"), "stop")
    w.stats.note = "%s on %s|%s, plots=%d, time=%s; %s; %s" % (
        s.kind, s.problem.name, how, plots, time, s.describe(), k.describe())
    if how == "limit":
        l.max_iter = t.choice((1, 0, 2, 3), "iterations")
    elif how != "none":
        stop.arm(t.draw(t.choice((6, 60, 400), "soon"), "stop at"), {
            "interrupt": KeyboardInterrupt(), "failure": Lost("4711"),
            "crash": SimCrash}[how], how)
    t0 = w.clock.mono
    rows = log.rows

    def look(world, kind, detail):
        rows.append((entries(l), world.clock.mono))
    w.hooks.append(look)
    live = True
    try:
        guard(w, "fit", lambda: s.fit(l), KeyboardInterrupt, Lost)
    except (KeyboardInterrupt, Lost):
        rows = None
    except SimCrash:
        d.restart()
        try:
            l = SaveLogger(d.path("m.pickle")).load()
        except OSError:
            raise Reject("nothing was saved")
        log.world, rows, live = None, None, False
    stop.disarm()
    w.hooks.remove(look)
    if stop.fired:
        rows = None if not live else rows
    if not hasattr(l, "w"):
        raise Reject("failed before training began")
    if s.kind == "latent_ssvm" or how == "limit":
        rows = None
    plot_it(w, t, screen, d, l, time, rows, t0)
    if live and how in ("none", "limit", "interrupt") and s.kind in (
            "nslack", "oneslack", "subgradient", "latent_subgradient") \
            and t.draw(2, "go on"):
        w.clock.advance(1000.)
        l.max_iter = s.cfg["max_iter"]
        log.plots = 0
        guard(w, "warm start", lambda: s.fit(l, **warm(s, l)))
        plot_it(w, t, screen, d, l, time, None, t0)


def plot_it(w, t, screen, d, l, time, rows, t0):
    if time and t.chance(30, "command line") and hasattr(l, "logger"):
        name = d.path("plot.pickle")
        keep, l.logger = l.logger, None
        guard(w, "save", lambda: SaveLogger(name).save(l, name))
        argv, sys.argv = sys.argv, ["plot_learning.py", name]
        try:
            judge(w, screen, "plot_learning.py", l, True, rows, t0, PL.main)
        finally:
            sys.argv = argv
            l.logger = keep
    else:
        judge(w, screen, "plot_learning", l, time, rows, t0)
