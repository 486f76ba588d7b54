"""Comparable snapshots of learners."""
import copy

import numpy as np

from .core import silence_points

SKIP = ("inference_cache_", "logger")


def snapshot(learner):
    """Deep copy of everything a checkpoint has to preserve."""
    with silence_points():
        return copy.deepcopy({k: v for k, v in vars(learner).items()
                              if k not in SKIP})


def state_of(learner):
    return {k: v for k, v in vars(learner).items() if k not in SKIP}


def difference(a, b, path="", depth=0):
    """Where two values differ, or None."""
    if depth > 30:
        return None
    if isinstance(a, np.random.RandomState) \
            and isinstance(b, np.random.RandomState):
        return difference(a.get_state(), b.get_state(), path, depth + 1)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: %s vs %s" % (path, type(a).__name__,
                                     type(b).__name__)
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s: shapes %s %s, types %s %s" % (path, a.shape, b.shape,
                                                      a.dtype, b.dtype)
        if a.dtype == object:
            return difference(list(a.ravel()), list(b.ravel()), path,
                              depth + 1)
        if not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            return "%s: %r vs %r" % (path, a, b)
        return None
    if type(a) is not type(b):
        return "%s: %s vs %s" % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return "%s: keys %s vs %s" % (path, sorted(map(str, a)),
                                          sorted(map(str, b)))
        for k in a:
            r = difference(a[k], b[k], "%s.%s" % (path, k), depth + 1)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d vs %d" % (path, len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            r = difference(p, q, "%s[%d]" % (path, i), depth + 1)
            if r:
                return r
        return None
    if type(a).__module__.startswith("cvxopt"):
        return difference(list(a), list(b), path, depth + 1)
    if isinstance(a, (int, float, complex, str, bytes, bool, type(None),
                      np.generic)):
        same = a == b or (a != a and b != b)
        return None if same else "%s: %r vs %r" % (path, a, b)
    if callable(a) and not hasattr(a, "__dict__"):
        return None
    if hasattr(a, "__dict__"):
        return difference({k: v for k, v in vars(a).items()
                           if k not in SKIP},
                          {k: v for k, v in vars(b).items()
                           if k not in SKIP}, path, depth + 1)
    return None if a == b else "%s: %r vs %r" % (path, a, b)
