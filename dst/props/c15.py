"""C15: data set loading is all or nothing under I/O faults."""
import errno
import gc
import io
import os
import pickle
import struct

import numpy as np

from dst import boot
from dst.common import Reject, Violation, guard, need, same_data
from dst.core import silence_points
from dst.disk import Disk, R
from dst.threads import Scheduler
from pystruct import datasets

TIERS = {"quick": {"runs": 20000, "wall": 60, "min": 3000},
         "thorough": {"runs": 1000000, "wall": 780, "min": 10000}}
MAX_STEPS = 400000
RULE = ("a run puts generated data set files (Python 2 and 3 pickles) in the "
        "place of the data files, then loads them one to five times while "
        "reads come up short, a drawn open or read fails or is interrupted, "
        "the file is missing, empty or truncated at a drawn byte, or other "
        "threads load at the same time, and compares each result with the "
        "data written; non-trivial when at least one load was compared or "
        "had to fail")
REAL = ["pystruct.datasets loaders", "pickle, numpy, buffered I/O"]
STUB = ["raw file reads and opens (simulated disk)", "contents of the data "
        "files", "thread scheduler (concurrent loads)"]

FILES = {"letters": "letters.pickle", "scene": "scene.pickle",
         "snakes": "snakes.pickle"}


class Py2(pickle._Pickler):
    """Pickles as Python 2 did: every string is a byte string."""
    dispatch = dict(pickle._Pickler.dispatch)

    def save_bytes(self, obj):
        self.write(b"T" + struct.pack("<i", len(obj)) + obj)
    dispatch[bytes] = save_bytes

    def save_str(self, obj):
        self.save_bytes(obj.encode("latin1"))
    dispatch[str] = save_str


def dump(obj, old):
    if not old:
        return pickle.dumps(obj, protocol=2)
    f = io.BytesIO()
    Py2(f, 2).dump(obj)
    return f.getvalue()


def content(t, name):
    rng = np.random.RandomState(t.draw(1 << 16, "content"))
    n = t.choice((3, 0, 1, 8), "samples")
    if name == "letters":
        words = [rng.randint(2, size=(rng.randint(1, 5), 128))
                 .astype(t.choice((np.uint8, np.float64), "type"))
                 for _ in range(n)]
        return {"data": words,
                "labels": [rng.randint(26, size=len(w)) for w in words],
                "folds": rng.randint(10, size=n), "note": "caf\xe9"}
    if name == "scene":
        return {"X_train": rng.normal(size=(n, 4)),
                "y_train": rng.randint(2, size=(n, 6)),
                "X_test": rng.normal(size=(2, 4)),
                "y_test": rng.randint(2, size=(2, 6)), "note": "\xe9"}
    big = t.chance(20, "big")
    return {"X_train": [rng.randint(2, size=(3, 4, 3)).astype(np.uint8)
                        for _ in range(n)],
            "Y_train": [rng.randint(11, size=(3, 4)) for _ in range(n)],
            "X_test": [rng.normal(size=(40, 60, 5))] if big else [],
            "Y_test": []}


def load(name):
    return getattr(datasets, "load_" + name)()


def check(name, got, want):
    need(isinstance(got, dict), "wrong-data", "load_%s returned %r", name,
         type(got))
    if name == "letters":
        need("images" in got, "wrong-data", "no images")
        im = got["images"]
        need(len(im) == len(want["data"]), "wrong-data", "%d images of %d "
             "words", len(im), len(want["data"]))
        for a, word in zip(im, want["data"]):
            b = np.zeros((16, 8 * len(word)), dtype=word.dtype)
            for j, l in enumerate(word):
                for r in range(16):
                    b[r, 8 * j:8 * j + 8] = l[8 * r:8 * r + 8]
            need(np.shape(a) == b.shape and np.array_equal(a, b),
                 "wrong-data", "the image of a word differs")
        got = {k: v for k, v in got.items() if k != "images"}
    need(sorted(got) == sorted(want), "wrong-data", "load_%s has %s", name,
         sorted(got))
    for k in want:
        need(same_data(got[k], want[k]), "wrong-data", "load_%s()[%r] "
             "differs from the file", name, k)


def spoil(got):
    """What a user does with a loaded data set."""
    for k, v in list(got.items()):
        if isinstance(v, np.ndarray) and v.size:
            v.ravel()[:] = 0
        elif isinstance(v, list):
            for a in v:
                if isinstance(a, np.ndarray):
                    a[...] = 3
            v.append(None)
    got.pop(sorted(got)[0])


def run(w):
    t = w.tape
    d = w.disk = Disk(w)
    where = os.path.join(os.path.abspath(boot.REPO), "pystruct", "datasets")
    names = ["letters", "scene", "snakes"]
    main = t.choice(names, "data set")
    raw, data = {}, {}
    for n in names:
        data[n] = content(t, n)
        raw[n] = dump(data[n], bool(t.draw(2, "Python 2")))
        p = d.path(FILES[n])
        d.overlay[os.path.join(where, FILES[n])] = p
        with R["open"](p, "wb") as f:
            f.write(raw[n])
    before = {n: raw[n] for n in names}
    if t.chance(25, "concurrent"):
        concurrent(w, t, d, data)
        return
    hist = []
    for _ in range(t.between(1, 5, "loads")):
        n = main if not t.chance(30, "other") else t.choice(names, "which")
        hist.append(one(w, t, d, n, raw, data))
        w.stats.note = "%s|%s" % (main, ", ".join(hist))
    for n in names:
        with R["open"](d.path(FILES[n]), "rb") as f:
            need(f.read() == before[n], "data-modified", "loading changed "
                 "%s", FILES[n])
    w.stats.nontrivial = True


def put(d, n, content):
    p = d.path(FILES[n])
    if content is None:
        R["unlink"](p)
        return
    with R["open"](p, "wb") as f:
        f.write(content)


def leaks(d):
    if d.fds:
        gc.collect()
    need(not d.fds, "descriptor-leak", "still open: %s",
         sorted(map(os.path.basename, d.fds.values())))


def one(w, t, d, n, raw, data):
    kind = t.choice(("healthy", "read fails", "open fails", "truncated",
                     "missing", "interrupt", "directory"), "fault")
    d.reads = d.ropens = 0
    d.read_plan, d.ropen_plan = {}, {}
    for i in range(1, 40):
        if t.chance(10, "short read"):
            d.read_plan[i] = "short"
    expect = None
    if kind == "read fails":
        code = t.choice(("EIO", "ESTALE", "ENOMEM"), "errno")
        d.read_plan[t.between(1, 4, "at read")] = code
        expect = code
    elif kind == "open fails":
        expect = t.choice(("EMFILE", "EACCES", "ENFILE", "EIO"), "errno")
        d.ropen_plan[1] = expect
    elif kind == "interrupt":
        d.read_plan[t.between(1, 3, "at read")] = "interrupt"
    elif kind == "missing":
        put(d, n, None)
        expect = "ENOENT"
        w.fault("file missing")
    elif kind == "directory":
        put(d, n, None)
        R["mkdir"](d.path(FILES[n]))
        expect = "EISDIR"
        w.fault("a directory in place of the file")
    elif kind == "truncated":
        cut = t.draw(len(raw[n]), "cut")
        put(d, n, raw[n][:cut])
        w.fault("file truncated")
    what = "%s of %s" % (kind, n)
    w.point("load", what)
    try:
        try:
            got = load(n)
        finally:
            d.suspended += 1
            if kind == "directory":
                os.rmdir(d.path(FILES[n]))
            if kind in ("directory", "missing", "truncated"):
                put(d, n, raw[n])
            d.suspended -= 1
    except OSError as e:
        need(expect is not None and e.errno == getattr(errno, expect),
             "wrong-exception", "%s: raised %r", what, e)
        leaks(d)
        return what
    except KeyboardInterrupt:
        need(kind == "interrupt", "wrong-exception", "%s: Ctrl-C", what)
        leaks(d)
        return what
    except (Violation, Reject):
        raise
    except Exception as e:
        need(kind == "truncated", "wrong-exception", "%s: raised %r", what,
             e)
        leaks(d)
        return what
    struck = [v for i, v in d.read_plan.items() if i <= d.reads]
    hit = kind in ("missing", "truncated", "directory", "open fails") \
        or (kind == "read fails" and expect in struck) \
        or (kind == "interrupt" and "interrupt" in struck)
    need(not hit, "fault-ignored", "%s: load_%s returned %r", what, n,
         sorted(got) if isinstance(got, dict) else got)
    leaks(d)
    check(n, got, data[n])
    w.probe("loads compared")
    if t.draw(2, "use it"):
        spoil(got)
    return what


def concurrent(w, t, d, data):
    jobs = [t.choice(sorted(data), "data set")
            for _ in range(t.between(2, 3, "threads"))]
    for i in range(1, 40):
        if t.chance(10, "short read"):
            d.read_plan[i] = "short"
    fail = t.chance(40, "one fails")
    if fail:
        d.read_plan[t.between(1, 6, "at read")] = "EIO"
    gap = t.choice((3, 1, 8), "preemption gap")
    w.stats.note = "concurrent|%s, EIO: %s" % (", ".join(jobs), fail)
    s = Scheduler(w, gap)
    ths = [s.spawn("loader%d" % i, lambda n=n: load(n))
           for i, n in enumerate(jobs)]
    s.run()
    failed = 0
    for th, n in zip(ths, jobs):
        if th.error is not None:
            need(isinstance(th.error, OSError)
                 and th.error.errno == errno.EIO, "wrong-exception",
                 "load_%s raised %r", n, th.error)
            failed += 1
            continue
        check(n, th.result, data[n])
    hit = any(v == "EIO" and i <= d.reads for i, v in d.read_plan.items())
    need(failed == int(hit), "fault-ignored", "%d loads failed, %d reads "
         "did", failed, int(hit))
    for i, (th, n) in enumerate(zip(ths, jobs)):
        # nobody else sees what one caller does to its data
        if th.error is None:
            check(n, th.result, data[n])
            spoil(th.result)
    leaks(d)
    w.fault("thread preempted")
    w.stats.faults["thread preempted"] = s.switches
    w.stats.nontrivial = True
