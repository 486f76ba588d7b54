"""Helpers shared by the property modules."""
import copy
import sys
import traceback

import numpy as np

from . import boot, seams
from .core import (Reject, SimCrash, StepBudget, Violation, World,
                   silence_points)
from .seams import Workers
from .threads import SchedulerStuck


class Injected(Exception):
    """An exception the simulator put into the system."""


class WorkerDied(Injected):
    """What the pool reports when a worker process disappears."""


def where(e):
    """The innermost frame of the code under test."""
    out = ""
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(boot.REPO):
            out = "%s:%d in %s" % (f.filename[len(boot.REPO) + 1:], f.lineno,
                                   f.name)
    return out


def qp_gave_up(w):
    """The real solver failed by itself (numerics), twice in a row."""
    return any(s != "optimal" for s in w.qp_status)


def guard(w, what, fn, *allowed):
    """Call into the code under test.  Whatever it raises that was neither
    injected nor allowed is a violation."""
    try:
        return fn()
    except (Violation, Reject, SimCrash, StepBudget, SchedulerStuck):
        raise
    except allowed:
        raise
    except (Exception, KeyboardInterrupt) as e:
        if isinstance(e, ValueError) and "QP solver failed" in str(e) \
                and qp_gave_up(w):
            raise Reject("the QP is numerically infeasible")
        raise Violation("unexpected-exception",
                        "%s raised %s: %s (%s)" % (what, type(e).__name__,
                                                   str(e)[:200], where(e)))


def need(ok, cls, msg, *args):
    if not ok:
        raise Violation(cls, msg % args if args else msg)


def draw_workers(t, n=None):
    """A worker pool configuration."""
    mode = t.choice(("shared", "copy", "threads"), "workers")
    order = t.choice(("fifo", "random", "lifo", "starve"), "completion")
    k = Workers(t, mode=mode, order=order,
                batch=t.choice((1, 2, 3), "joblib batch"),
                readonly=bool(mode == "copy" and t.draw(2, "readonly")),
                cpus=t.between(1, 6, "cpus"))
    if mode == "threads":
        k.gap = t.choice((0, 40, 8), "preemption gap")
    return k


def sub_world(w, backend=None, name="twin"):
    """A world for a reference execution: same tape position is not consumed,
    no faults, own clock."""
    from .core import Tape
    r = World(Tape(values=[]), w.stats.__class__(), w.max_steps, name)
    r.backend = backend
    r.qp_status = w.qp_status
    return r


def norm(x):
    return float(np.sqrt(np.sum(np.asarray(x, float) ** 2)))


def rel_close(a, b, tol):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_curves(a, b, rtol=1e-7, atol=1e-7):
    return len(a) == len(b) and bool(np.allclose(a, b, rtol=rtol, atol=atol))


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))


def deep(x):
    with silence_points():
        return copy.deepcopy(x)


def same_data(a, b):
    """Bitwise equality of nested training data."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype \
            and bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) \
            and all(same_data(p, q) for p, q in zip(a, b))
    return a == b or (a != a and b != b)
