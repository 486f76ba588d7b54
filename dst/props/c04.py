"""C04: checkpoints survive crashes, power loss and disk errors."""
import errno
import os

from dst import workloads as W
from dst.common import (Injected, Reject, Violation, deep, guard, need, same_data,
                        sub_world)
from dst.core import SimCrash, World
from dst.disk import Disk
from dst.latent import make_latent
from dst.snap import difference, snapshot, state_of
from pystruct.utils import SaveLogger

TIERS = {"quick": {"runs": 4000, "wall": 80, "min": 500},
         "thorough": {"runs": 80000, "wall": 780, "min": 2000}}
RULE = ("a run trains with a SaveLogger on a simulated disk; a dry run counts "
        "the disk operations, then one of them (or the disk filling up) "
        "fails: process crash before or inside the operation, power loss "
        "(unsynced data and journal tail lost), EIO, ENOSPC, EMFILE, short "
        "write or Ctrl-C; afterwards every checkpoint name must hold a "
        "complete checkpoint at least as new as promised; non-trivial when "
        "the fault fired")
REAL = ["pystruct SaveLogger, learners, models", "pickle, io buffering",
        "real files in a scratch directory"]
STUB = ["raw file, rename, unlink, fsync (simulated disk)", "clock",
        "process death (unwinding with every later write suppressed)"]
ASSUMPTIONS = [
    "the simulated file system behaves like a journalling one: fsync makes "
    "the file's data and all earlier directory changes durable, rename is "
    "atomic"]


class Watched(SaveLogger):
    """A SaveLogger that remembers what it was asked to save."""

    def __init__(self, file_name, save_every):
        SaveLogger.__init__(self, file_name, save_every)
        self.tried = []       # (path, snapshot)
        self.done = []        # the same, once the call returned

    def __getstate__(self):
        return {"file_name": self.file_name, "save_every": self.save_every,
                "verbose": 0, "tried": [], "done": []}

    def target(self, iteration):
        return self.file_name.replace("%d", str(iteration))

    def __call__(self, learner, iteration=0):
        due = iteration == 'final' or iteration % self.save_every == 0
        if due:
            entry = (self.target(iteration), snapshot(learner))
            self.tried.append(entry)
        SaveLogger.__call__(self, learner, iteration)
        if due:
            self.done.append(entry)


def setup(t):
    if t.chance(15, "latent"):
        s = make_latent(t)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 4)
    else:
        s = W.make_setup(t, learners=("nslack", "oneslack", "subgradient",
                                      "fw", "fwbatch"), max_n=4)
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 6)
    return s


def build(s, logger):
    if s.kind == "latent_ssvm":
        return s.build(outer_logger=logger)
    return s.build(logger=logger)


def run(w):
    t = w.tape
    s = setup(t)
    name = t.choice(("model.pickle", "model-%d.pickle"), "file name")
    every = t.choice((1, 2, 3), "save every")
    mode = t.choice(("crash", "power", "error", "full", "pickle"), "fault")
    blk = t.choice((8192, 512, 128), "block size")
    # -- dry run: how many operations are there?
    with sub_world(w) as r:
        r.disk = Disk(r, "dry")
        r.disk.blksize = blk
        try:
            log = Watched(r.disk.path(name), every)
            guard(r, "fit with a logger", lambda: s.fit(build(s, log)))
            ops = [k for _, k, _ in r.disk.trace]
            log_calls = range(len(log.done))
            size = sum(os.path.getsize(r.disk.path(f))
                       for f in r.disk.listing())
        finally:
            r.disk.remove()
    if not ops:
        raise Reject("nothing was saved")
    d = w.disk = Disk(w)
    d.blksize = blk
    log = Watched(d.path(name), every)
    l = build(s, log)
    old = None
    if t.draw(2, "earlier checkpoint"):
        # from an earlier training run, on the same name
        old = build(s, None)
        old.w = [float(t.draw(5))]
        guard(w, "save", lambda: SaveLogger(d.path(name), every)(old, 0))
        log.done.append((log.target(0), snapshot(old)))
        d.restart()
        d.ops, d.trace = 0, []
    at = 1 + t.draw(len(ops), "operation")
    kind = None
    if mode in ("crash", "power"):
        d.plan[at] = kind = t.choice(("crash", "torn"), "how") \
            if ops[at - 1] in ("write", "rename", "replace") else "crash"
    elif mode == "pickle":
        # some attribute of the model refuses to be pickled, once
        l.model.bomb = Bomb(w, t.draw(len(log_calls), "which save"))
    elif mode == "full":
        d.budget = t.draw(size + size // 2, "free bytes")
    else:
        kinds = {"open": ("EMFILE", "ENOSPC", "EIO", "interrupt"),
                 "write": ("short", "EIO", "ENOSPC", "interrupt"),
                 "fsync": ("EIO", "ENOSPC", "interrupt")}.get(
                     ops[at - 1], ("EIO", "interrupt"))
        d.plan[at] = kind = t.choice(kinds, "error")
    w.stats.note = "%s on %s|%s %s at operation %d of %d, save_every=%d, %s" \
        % (s.kind, s.problem.name, mode, kind, at, len(ops), every, name)
    fail = None
    try:
        s.fit(l)
    except SimCrash as e:
        fail = e
    except (OSError, KeyboardInterrupt, Injected) as e:
        fail = e
    except (Violation, Reject):
        raise
    except Exception as e:
        guard(w, "fit with a logger", lambda: (_ for _ in ()).throw(e))
    fired = sum(w.stats.faults.values())
    if not fired:
        raise Reject("the fault was not reached")
    if mode in ("crash", "power"):
        if not d.dead:
            raise Violation("crash-survived", "the crash was swallowed")
        if mode == "power":
            d.power_loss(t)
        d.restart()
        check_files(w, d, log, 1 if mode == "power" else 0)
        again(w, t, d, s, log, ops, mode, old is None)
        w.stats.nontrivial = True
        return
    # -- errors: training sees them, the checkpoints stay
    d.plan, d.budget = {}, None
    if mode == "pickle":
        need(isinstance(fail, Injected), "failure-swallowed",
             "pickling failed, but fit gave %r", fail)
    elif kind == "interrupt":
        if fail is not None and not isinstance(fail, KeyboardInterrupt):
            raise Violation("failure-disguised", "Ctrl-C became %r" % fail)
    elif kind != "short":
        need(isinstance(fail, OSError), "failure-swallowed",
             "the disk failed (%s), but fit returned", kind or "ENOSPC")
        need(fail.errno == getattr(errno, kind or "ENOSPC"),
             "failure-disguised", "%s surfaced as %r", kind, fail)
    elif fail is not None:
        raise Violation("short-write", "a short write made fit raise %r"
                        % fail)
    check_files(w, d, log, 0)
    # the learner is intact and the same logger works again
    before = snapshot(l)
    cache = getattr(l, "inference_cache_", None)
    if getattr(l, "inference_cache", 0) and hasattr(l, "alphas") \
            and l.objective_curve_:
        need(cache is not None, "learner-modified", "the inference cache is "
             "gone after a failed save")
    guard(w, "the next save", lambda: log(l, 'final'))
    r = difference(before, state_of(l))
    need(r is None, "learner-modified", "saving changed the learner: %s", r)
    check_files(w, d, log, 0)
    w.stats.nontrivial = True


def again(w, t, d, s, log, ops, mode, real):
    """Life goes on: the next process trains with the same names, and may
    crash as well."""
    for i in range(2):
        if not t.draw(2, "train again"):
            return
        # what there is now is what the next process starts from
        log.done = [(n, snapshot(SaveLogger(n).load())) for n in
                    sorted({n for n, _ in log.done + log.tried})
                    if os.path.exists(n)]
        log.tried = list(log.done)
        l = build(s, log)
        if log.done and real and t.draw(2, "continue"):
            l = SaveLogger(log.done[-1][0]).load()
            l.logger = log
        d.ops, d.trace = 0, []
        at = 1 + t.draw(len(ops), "operation")
        d.plan[at] = t.choice(("crash", "torn"), "how") \
            if ops[at - 1] in ("write", "rename", "replace") else "crash"
        guard(w, "fit", lambda: crashing(s, l))
        if d.dead:
            w.probe("crashed again")
            if mode == "power":
                d.power_loss(t)
        d.restart()
        check_files(w, d, log, 1 if mode == "power" else 0)


def crashing(s, l):
    try:
        s.fit(l)
    except SimCrash:
        pass


class Bomb(object):
    """Cannot be pickled the n-th time."""
    __slots__ = ("w", "n")

    def __init__(self, w=None, n=-1):
        self.w, self.n = w, n

    def __deepcopy__(self, memo):
        return Bomb()

    def __reduce__(self):
        self.n -= 1
        if self.n == -1:
            self.w.fault("pickling error")
            raise Injected("cannot be pickled now")
        return Bomb, ()

    def __eq__(self, other):
        return isinstance(other, Bomb)


def check_files(w, d, log, may_lose):
    """Every name holds its newest complete checkpoint; may_lose: how many of
    the last completed saves a power loss may undo."""
    sure = log.done[:len(log.done) - may_lose] if may_lose else log.done
    pending = [e for e in log.tried if not any(e is x for x in log.done)]
    maybe = (log.done[len(log.done) - may_lose:] if may_lose else []) \
        + pending[-1:]
    names = {n for n, _ in log.done + log.tried}
    for n in sorted(names):
        must = [s for p, s in sure if p == n][-1:]
        ok = must + [s for p, s in maybe if p == n]
        if not os.path.exists(n):
            need(not must, "checkpoint-lost", "%s does not exist although it "
                 "was saved", os.path.basename(n))
            continue
        try:
            got = SaveLogger(n).load()
        except Exception as e:
            raise Violation("checkpoint-corrupt", "%s cannot be loaded: %s %s"
                            % (os.path.basename(n), type(e).__name__,
                               str(e)[:100]))
        diffs = [difference(s, state_of(got)) for s in ok]
        need(any(x is None for x in diffs), "wrong-checkpoint",
             "%s holds none of the states that were saved: %s",
             os.path.basename(n), "; ".join(map(str, diffs))[:300])
