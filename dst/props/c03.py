"""C03: Ctrl-C during fit leaves a usable, consistent learner."""
import copy
import dis
import sys

import numpy as np

from dst import boot
from dst import workloads as W
from dst.workloads import close
from dst.common import (Reject, Violation, Workers, deep, draw_workers,
                        finite, guard, need, rel_close, same_data, sub_world)
from dst.core import silence_points
from dst.latent import make_latent

TIERS = {"quick": {"runs": 5000, "wall": 80, "min": 500},
         "thorough": {"runs": 80000, "wall": 780, "min": 2000}}
RULE = ("a run trains a twin without interruption and records w at every "
        "seam; then the same training gets KeyboardInterrupt at one chosen "
        "seam (inside an inference, joint feature, loss, QP, logger or "
        "worker-pool call) between the first inference and the final "
        "objective pass, or inside the final pass; sometimes a second one "
        "follows; non-trivial when the interrupt fired")
REAL = ["pystruct learners, models, inference, utils", "joblib.Parallel "
        "front end", "cvxopt QP/LP", "ad3"]
STUB = ["joblib worker pool (simulated backend)", "clock",
        "signal delivery (KeyboardInterrupt raised at seams and lines)"]


class CountingLogger:
    def __init__(self):
        self.iterations = []

    def __call__(self, learner, iteration=0):
        self.iterations.append(iteration)
        w = W.World.current
        if w is not None and iteration != 'final':
            w.point("logger", iteration)


def setup(t):
    if t.chance(12, "latent"):
        s = make_latent(t, learners=("latent_subgradient",))
    else:
        s = W.make_setup(t)
        W.maybe_negative(t, s)
        if s.kind in ("nslack", "oneslack", "fw", "fwbatch"):
            s.cfg["max_iter"] = min(s.cfg["max_iter"], 15)
    jobs = t.choice((1, 2, 3), "n_jobs")
    if s.kind in ("fw", "fwbatch"):
        jobs = 1
    if s.kind == "subgradient" and jobs != 1:
        s.cfg["batch_size"] = None
    s.cfg["n_jobs"] = jobs
    return s


SKIP = ("NOP", "EXTENDED_ARG", "JUMP_BACKWARD", "JUMP_FORWARD")
_inlined = {}


def inlined(code):
    """The instructions of inlined comprehensions: CPython 3.12 loses the
    handlers around them when a trace function raises there."""
    r = _inlined.get(code)
    if r is None:
        r = _inlined[code] = set()
        start = end = None
        for i in dis.get_instructions(code):
            if i.opname == "LOAD_FAST_AND_CLEAR" and start is None:
                start = i.offset
            if start is not None and end is None and i.opname == "FOR_ITER":
                end = i.argval
            if start is not None:
                r.add(i.offset)
                if end is not None and i.offset > end and i.opname not in (
                        "SWAP", "STORE_FAST"):
                    start = end = None
    return r


def can_strike(frame):
    """Could a signal arrive here?"""
    co = frame.f_code
    return dis.opname[co.co_code[frame.f_lasti]] not in SKIP \
        and frame.f_lasti not in inlined(co)


class Lines:
    """Counts the source lines of pystruct the main thread executes, and
    strikes before one of them: where a signal arrives in reality."""

    def __init__(self, at=None):
        self.n = 0
        self.at = at
        self.where = None

    def _trace(self, frame, event, arg):
        co = frame.f_code
        if not co.co_filename.startswith(boot.REPO) \
                or co.co_name == "<module>":
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            # the interpreter never checks for signals at a bare try: line,
            # nor does the try block cover it
            if self.at is not None and self.n >= self.at \
                    and self.where is None and can_strike(frame):
                self.where = frame.f_code.co_name
                raise KeyboardInterrupt
        return self._line

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Trace:
    """w at every seam crossed by the main thread."""

    def __init__(self, learner):
        self.l = learner
        self.rows = []           # (kind, learner.w, w argument)
        self.samples = []        # samples inferred, this call included

    def hook(self, world, kind, detail):
        if world.backend is not None and world.backend.in_worker:
            return
        lw = getattr(self.l, "w", None)
        self.rows.append([kind, None if lw is None else np.array(lw), None])
        self.samples.append(world.samples)

    def on_infer(self, world, model, kind, n, x, y, w, call):
        if self.rows and self.rows[-1][2] is None:
            self.rows[-1][2] = np.array(w)
        return call()


def run(w):
    t = w.tape
    s = setup(t)
    n = len(s.problem.X)
    k = draw_workers(t)
    if t.chance(20, "between two lines"):
        return line_case(w, s)
    mode = (k.mode, k.batch, k.cpus)
    w.stats.note = "%s on %s|interrupt in %s; %s" % (
        s.kind, s.problem.name, s.describe(), k.describe())
    final_pass = s.kind != "perceptron"

    # -- the uninterrupted twin
    with sub_world(w, Workers(t, mode=mode[0], batch=mode[1],
                              cpus=mode[2])) as r:
        r.backend.gap = 0
        tlog = CountingLogger()
        twin = s.build(logger=tlog)
        tr = Trace(twin)
        r.hooks.append(tr.hook)
        r.on_infer = tr.on_infer
        guard(r, "fit", lambda: s.fit(twin))
        total = r.samples
    per_sample = 2 if s.kind == "latent_subgradient" else 1
    last_sample = total - n * per_sample if final_pass else total
    tr.last = last_sample
    kinds = [row[0] for row in tr.rows]
    infer = ("infer", "lai", "latent")
    first = next((i for i, kd in enumerate(kinds) if kd in infer + ("pool",)),
                 None)
    if first is None:
        raise Reject("no inference")

    def training(i):
        """Certainly before the final objective pass."""
        if kinds[i] == "pool" and final_pass:
            return tr.samples[i] < last_sample
        return (kinds[i] in infer + ("qp", "logger", "pool")
                and tr.samples[i] <= last_sample)

    end = max([i for i in range(len(kinds)) if training(i)] or [-1])
    inside = list(range(first, end + 1))
    tail = [i for i in range(end + 1, len(kinds))
            if tr.samples[i] > last_sample]
    late = bool(final_pass and tail and t.chance(10, "in the final pass"))
    where = tail if late else inside
    if not where:
        raise Reject("nothing to interrupt")
    if not late and t.draw(3, "bias") == 2:
        # right before or after something that changes the state
        pick = [i for i in where if tr.rows[i][0] in ("qp", "logger")
                or (i and tr.rows[i - 1][0] in ("qp", "logger"))]
        where = pick or where
    at = where[len(where) - 1 - t.draw(len(where), "interrupt at")]

    # -- the interrupted run
    w.backend = k
    log = CountingLogger()
    l = s.build(logger=log)
    data = (deep(s.problem.X), deep(s.problem.Y))
    seen = [0]
    fired = []

    def strike(world, kind, detail):
        if k.in_worker:
            return
        i = seen[0]
        seen[0] += 1
        if i == at and not fired:
            fired.append(kind)
            world.fault("KeyboardInterrupt in " + kind)
            raise KeyboardInterrupt

    w.hooks.append(strike)
    propagated = False
    out = None
    if late:
        try:
            out = guard(w, "fit", lambda: s.fit(l), KeyboardInterrupt)
        except KeyboardInterrupt:
            propagated = True
    else:
        out = guard(w, "interrupted fit (in %s)" % tr.rows[at][0],
                    lambda: s.fit(l))
    w.hooks.remove(strike)
    if not fired:
        raise Violation("not-deterministic", "the run differs from its twin "
                        "before the interrupt: %d seams, expected more than "
                        "%d" % (seen[0], at))
    k.gap = 0
    if not propagated:
        need(out is l, "no-self", "fit returned %r", out)
    need(same_data(data[0], s.problem.X) and same_data(data[1], s.problem.Y),
         "data-modified", "the training data changed")
    need(getattr(l, "w", None) is not None, "no-w", "w is not set")
    need(finite(l.w) and np.shape(l.w) == np.shape(twin.w), "not-finite",
         "w = %r", l.w)
    if not late:
        check_w(w, s, l, twin, tr, at)
    if not propagated:
        check_curves(w, s, l, twin, late)
        if final_pass:
            check_objective(w, s, l)
            need(log.iterations.count('final') == 1, "logger",
                 "the logger got %r: not exactly one final call",
                 log.iterations)
        m = [i for i in log.iterations if i != 'final']
        need(m == [i for i in tlog.iterations if i != 'final'][:len(m)],
             "logger", "logged iterations %r, without interrupt %r",
             log.iterations, tlog.iterations)
    usable(w, s, l, twin)
    w.stats.nontrivial = True


def line_case(w, s):
    """The signal arrives between two statements rather than in a call."""
    t = w.tape
    n = len(s.problem.X)
    if s.kind in ("nslack", "oneslack", "fw", "fwbatch"):
        s.cfg["max_iter"] = min(s.cfg["max_iter"], 6)
    s.cfg["n_jobs"] = 1
    w.stats.note = "%s on %s|interrupt between two lines in %s" % (
        s.kind, s.problem.name, s.describe())
    final_pass = s.kind != "perceptron"
    with sub_world(w) as r:
        tlog = CountingLogger()
        twin = s.build(logger=tlog)
        rows = []                    # (kind, samples, lines executed)
        lines = Lines()
        r.hooks.append(lambda world, kind, detail: rows.append(
            (kind, world.samples, lines.n)))

        def go():
            with lines:
                return s.fit(twin)
        guard(r, "fit", go)
        total = r.samples
    per_sample = 2 if s.kind == "latent_subgradient" else 1
    last_sample = total - n * per_sample if final_pass else total
    infer = ("infer", "lai", "latent")
    first = next((c for kind, m, c in rows if kind in infer), None)
    end = max([c for kind, m, c in rows
               if kind in infer + ("qp", "logger") and m <= last_sample]
              or [-1])
    if first is None or end <= first:
        raise Reject("no inference")
    at = end - t.draw(end - first, "interrupt at line")

    w.backend = Workers(t)
    log = CountingLogger()
    l = s.build(logger=log)
    data = (deep(s.problem.X), deep(s.problem.Y))
    strike = Lines(at)

    def go():
        with strike:
            return s.fit(l)
    out = guard(w, "fit interrupted after %d lines" % at, go)
    need(strike.where is not None, "not-deterministic", "the run differs from "
         "its twin before the interrupt: %d lines, expected more than %d",
         strike.n, at)
    w.fault("KeyboardInterrupt between two lines")
    w.event("interrupt", "before line %d, in %s" % (at, strike.where))
    need(out is l, "no-self", "fit returned %r", out)
    need(same_data(data[0], s.problem.X) and same_data(data[1], s.problem.Y),
         "data-modified", "the training data changed")
    need(getattr(l, "w", None) is not None and finite(l.w)
         and np.shape(l.w) == np.shape(twin.w), "not-finite",
         "w = %r", getattr(l, "w", None))
    for name, x in W.curves(l).items():
        need(finite(x), "curves", "%s has non-finite entries: %r", name, x)
    if final_pass:
        check_objective(w, s, l)
        need(log.iterations.count('final') == 1, "logger",
             "the logger got %r: not exactly one final call", log.iterations)
    m = [i for i in log.iterations if i != 'final']
    need(m == [i for i in tlog.iterations if i != 'final'][:len(m)],
         "logger", "logged iterations %r, without interrupt %r",
         log.iterations, tlog.iterations)
    usable(w, s, l, twin)
    w.stats.nontrivial = True


def check_w(w, s, l, twin, tr, at):
    """w is what training had reached at the interrupt."""
    near = []
    # the weights the oracle was asked with, just before and just after
    for step in (-1, 1):
        i = at
        while 0 <= i < len(tr.rows):
            if tr.rows[i][2] is not None:
                near.append(tr.rows[i][2])
                break
            i += step
    if len(near) < 2:
        near.append(np.array(twin.w))
    # those were not averaged yet; cached constraints need no inference
    if s.cfg.get("averaging") or s.cfg.get("inference_cache"):
        near = [tr.rows[at][1], tr.rows[at + 1][1]
                if at + 1 < len(tr.rows) else np.array(twin.w)]
    if s.kind == "fw" and s.cfg["do_averaging"]:
        near = fw_averages(s, twin, tr, at)
    if s.kind == "perceptron":
        with sub_world(w), silence_points():
            ws, means = averages(s)
        if s.cfg["average"] is False:
            means = ws
        # the interrupt struck while this many samples had been looked at
        c = tr.samples[at]
        ok = [means[i] for i in range(c - 1, c + 2) if 0 <= i < len(means)]
        if s.cfg["batch"]:
            n = len(s.problem.X)
            ok = [means[i] for i in range(c - n - 1, c + n + 2)
                  if 0 <= i < len(means)]
        need(any(close(l.w, x, rtol=1e-9, atol=1e-12) for x in ok),
             "not-an-iterate", "w=%r, but what training had reached "
             "after %d samples is %r", l.w, c, ok[-1] if ok else None)
        return
    need(any(close(l.w, x, rtol=1e-9, atol=1e-12) for x in near),
         "not-an-iterate", "w=%r, but training had reached %r", l.w,
         near[0] if near else None)


def fw_averages(s, twin, tr, at):
    """The weighted average of the iterates around the interrupt."""
    n, every = len(s.problem.X), s.cfg["check_dual_every"]
    args, before = [], 0         # w of each block update; those before `at`
    it = 0                       # pass, and inferences left in it
    left = [n, n if every and it % every == 0 else 0]
    for i, row in enumerate(tr.rows):
        if row[2] is None or tr.samples[i] > tr.last:
            continue
        if not any(left):
            it += 1
            left = [n, n if every and it % every == 0 else 0]
        if left[0]:
            left[0] -= 1
            args.append(row[2])
            before += i < at
        else:                    # one call, or one per sample
            left[1] -= tr.samples[i] - tr.samples[i - 1]
    mean = np.zeros_like(args[0])
    out = [mean]
    for k, x in enumerate(args[1:]):
        rho = 2. / (k + 2.)
        mean = (1. - rho) * mean + rho * x
        out.append(mean)
    out.append(np.array(twin.w))
    return [out[b] for b in range(before - 1, before + 2)
            if 0 <= b < len(out)]


def averages(s):
    """The perceptron's w and average after every sample, as documented."""
    p, c = s.problem, s.cfg
    m = p.make_model()
    m.initialize(p.X, p.Y)
    w = np.zeros(m.size_joint_feature)
    start = 0 if c["average"] is True else int(c["average"])
    mean, n_obs = w, 0
    out, ws = [mean], [w]
    for it in range(c["max_iter"]):
        lr = (it + c["decay_t0"]) ** c["decay_exponent"]
        if start == -1:
            n_obs = 0
        losses = 0
        answers = ([m.inference(x, w) for x in p.X] if c["batch"]
                   else [None] * len(p.X))
        for x, y, y_hat in zip(p.X, p.Y, answers):
            if y_hat is None:
                y_hat = m.inference(x, w)
            loss = m.loss(y, y_hat)
            losses += loss
            if loss:
                w = w + lr * (m.joint_feature(x, y)
                              - m.joint_feature(x, y_hat))
            ws.append(w)
            if not c["batch"]:
                if it >= start:
                    n_obs += 1
                    mean = (1 - 1. / n_obs) * mean + w / n_obs
                out.append(mean)
        if c["batch"]:
            if it >= start:
                n_obs += 1
                mean = (1 - 1. / n_obs) * mean + w / n_obs
            out.extend([mean] * len(p.X))
        if losses == 0:
            break
    return ws, out


def check_curves(w, s, l, twin, late):
    a, b = W.curves(l), W.curves(twin)
    for name in a:
        x, y = a[name], b.get(name, [])
        body = x[:-1] if name != "loss_curve_" else x
        need(finite(x), "curves", "%s has non-finite entries: %r", name, x)
        if not late:
            # FW repeats its last dual value at the end
            need(len(body) <= len(y) and close(body, y[:len(body)],
                                               rtol=1e-7, atol=1e-9),
                 "curves", "%s is %r, without interrupt %r", name, x, y)
    if "primal_objective_curve_" in a:
        need(len(a["primal_objective_curve_"])
             == len(a["objective_curve_"]), "curves",
             "%d primal and %d dual objective values",
             len(a["primal_objective_curve_"]), len(a["objective_curve_"]))
    if hasattr(l, "cached_constraint_"):
        need(len(l.cached_constraint_) == len(a["objective_curve_"]),
             "curves", "%d cached_constraint_ entries for %d iterations",
             len(l.cached_constraint_), len(a["objective_curve_"]))
    if hasattr(l, "timestamps_") and "objective_curve_" in a:
        ts = l.timestamps_
        got = len(ts) - len(a["objective_curve_"])
        need(got in (1, 2), "timestamps",
             "%d timestamps for %d objective values", len(ts),
             len(a["objective_curve_"]))
        need(all(p <= q for p, q in zip(ts[1:], ts[2:])), "timestamps",
             "elapsed times go backwards: %r", ts[1:])


def check_objective(w, s, l):
    with sub_world(w):
        if s.kind == "latent_subgradient":
            return
        want = W.primal(s.problem, l.model, l.w, s.cfg["C"])
    curve = (l.primal_objective_curve_ if hasattr(l, "primal_objective_curve_")
             else l.objective_curve_)
    need(rel_close(curve[-1], want, 1e-6), "wrong-objective",
         "the final objective is recorded as %r, at the returned w it is %r",
         curve[-1], want)


def continues(w, s, l):
    """A copy of the learner continues from where it was stopped, to the
    optimum."""
    p, C = s.problem, s.cfg["C"]
    if len(p.X) > 8:
        return                   # too many constraints
    l = copy.deepcopy(l)
    if s.kind == "nslack":
        need(hasattr(l, "constraints_"), "no-constraints",
             "there are no constraints_ to continue from")
        kw = {"constraints": l.constraints_}
        if w.tape.draw(3, "another learner") == 2:
            w.probe("another learner continues from the constraints")
            l = s.build()
            l.objective_curve_ = []
        l.tol = -1e9
    else:
        l.tol = 1e-3
        kw = {"warm_start": True}
    l.max_iter = 100
    before = len(l.objective_curve_)
    guard(w, "continuing after the interrupt", lambda: s.fit(l, **kw))
    need(finite(l.w), "not-finite", "w=%r after continuing", l.w)
    if not (p.exact and p.integral and p.labels is not None) \
            or s.cfg.get("inactive_window") == 2 \
            or len(l.objective_curve_) - before >= 100:
        return
    with sub_world(w):
        m = p.make_model()
        with silence_points():
            m.initialize(p.X, p.Y)
        lower, upper, _ = W.solve_exact(p, m, C)
        got = W.enumerate_primal(p, l.model, l.w, C)
    if upper - lower > 1e-4 * max(1, upper):
        return
    slack = len(p.X) * C * (2e-3 if s.kind == "oneslack" else 2e-4) \
        + 2e-3 * max(1, upper)
    need(got <= upper + slack, "not-optimal", "continuing after the interrupt "
         "ends with objective %r, the optimum is %r (allowed difference %g)",
         got, upper, slack)


def usable(w, s, l, twin):
    """Predict and refit work as ever."""
    X = s.problem.X
    got = guard(w, "predict after the interrupt", lambda: l.predict(X))
    with silence_points():
        want = [l.model.inference(x, l.w) for x in X]
        if hasattr(l.model, "label_from_latent"):
            want = [l.model.label_from_latent(h) for h in want]
    need(len(got) == len(want) and all(W.same_labels(a, b)
                                       for a, b in zip(got, want)),
         "wrong-prediction", "predict gives %r, not %r", got, want)
    bad = W.check_negative(s, l.w)
    need(bad is None, "negativity", "%s", bad)
    if s.kind in ("nslack", "oneslack") \
            and "negativity_constraint" not in s.cfg \
            and w.tape.draw(2, "continue"):
        continues(w, s, l)
    guard(w, "fit after the interrupt", lambda: s.fit(l))
    if s.kind in ("subgradient", "latent_subgradient"):
        return           # these continue from the current w by design
    need(close(l.w, twin.w, rtol=1e-7, atol=1e-8), "refit",
         "training again gives w=%r instead of %r", l.w, twin.w)
