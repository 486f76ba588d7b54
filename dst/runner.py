"""Running batches of simulated executions: workers, shrinking, replay files,
evidence.  The deciding step is the seeded search in run_range."""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import boot

PROPS = os.path.join(boot.VERIF, "dst", "props")
REPLAYS = os.path.join(boot.VERIF, "replays")
EVIDENCE = os.path.join(boot.VERIF, "evidence")
HANG_S = 90           # real seconds one run may take before it counts as stuck
PER_RUN_STEPS = 200000


def seed_of(prop, verif_seed, index):
    h = hashlib.sha256(("%s:%s:%d" % (prop, verif_seed, index)).encode())
    return int.from_bytes(h.digest()[:8], "big")


def load(prop):
    return importlib.import_module("dst.props." + prop.lower())


class Result:
    """Outcome of one run."""

    def __init__(self):
        self.kind = "ok"         # ok | violation | reject | hang
        self.cls = self.msg = ""
        self.tape = []
        self.digest = ""
        self.log = []
        self.stats = None
        self.worlds = 1


class _Stuck(BaseException):
    pass


def _alarm(sig, frame):
    raise _Stuck()


def run_once(mod, tape, hang_s=HANG_S):
    """One simulated execution.  Harness errors propagate."""
    from .core import (Reject, Stats, StepBudget, Violation, World)
    import numpy as np
    import cvxopt.solvers
    r = Result()
    stats = Stats()
    np.random.seed(12345)
    random.seed(12345)
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options["show_progress"] = False
    w = World(tape, stats, max_steps=getattr(mod, "MAX_STEPS",
                                             PER_RUN_STEPS))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, hang_s)
    try:
        with w, boot.quiet():
            mod.run(w)
    except Reject:
        r.kind = "reject"
    except Violation as e:
        r.kind, r.cls, r.msg = "violation", e.cls, e.msg
    except StepBudget as e:
        r.kind, r.cls = "violation", "no-progress"
        r.msg = "the run did not end within %s" % e
    except Exception as e:
        # out of the code under test, in a call that has to work
        if not any(f.filename.startswith(boot.REPO + os.sep)
                   for f in traceback.extract_tb(e.__traceback__)):
            raise
        if isinstance(e, ValueError) and "QP solver failed" in str(e) \
                and any(s != "optimal" for s in w.qp_status):
            r.kind = "reject"     # numerically infeasible, as documented
        else:
            r.kind, r.cls = "violation", "unexpected-exception"
        r.msg = "%s: %s" % (type(e).__name__, str(e)[:300])
    except _Stuck:
        r.kind, r.cls = "hang", "hang"
        r.msg = "no end after %d real seconds" % hang_s
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        World.current = None
        if w.disk is not None:
            w.disk.remove()
    w.event("end", r.kind + r.cls)
    r.tape = tape.used()
    r.labels = tape.labels
    r.digest = w.digest.hexdigest()
    r.log = w.log
    r.stats = stats
    return r


def run_range(prop, seed, start, stride, count, deadline, out):
    """Worker: runs start, start+stride, ...; writes one JSON summary."""
    from .core import Tape
    boot.boot()
    mod = load(prop)
    faults, probes = collections.Counter(), collections.Counter()
    kinds = collections.Counter()
    notes = collections.Counter()
    digests = set()
    sim = steps = n = nontrivial = 0
    samples, viol, runlog = [], None, []
    t0 = time_real()
    i = start
    while i < count and time_real() - t0 < deadline:
        s = seed_of(prop, seed, i)
        try:
            r = run_once(mod, Tape(s))
        except Exception:
            out.write(json.dumps({"error": traceback.format_exc(),
                                  "index": i, "seed": s}) + "\n")
            out.flush()
            return
        n += 1
        kinds[r.kind] += 1
        runlog.append((i, r.kind, r.digest))
        faults.update(r.stats.faults)
        probes.update(r.stats.probes)
        sim += r.stats.sim_seconds
        steps += r.stats.steps
        if r.stats.note:
            notes[r.stats.note.split("|")[0]] += 1
        if r.kind == "ok" and r.stats.nontrivial:
            nontrivial += 1
            digests.add(r.digest[:16])
            if len(samples) < 2:
                samples.append({"index": i, "seed": s,
                                "run": r.stats.note,
                                "faults": dict(r.stats.faults),
                                "steps": r.stats.steps,
                                "events": len(r.log)})
        if r.kind in ("violation", "hang"):
            viol = {"index": i, "seed": s, "tape": r.tape, "class": r.cls,
                    "message": r.msg, "digest": r.digest}
            break
        i += stride
    out.write(json.dumps({
        "runs": n, "kinds": kinds, "faults": faults, "probes": probes,
        "sim_seconds": sim, "steps": steps, "nontrivial": nontrivial,
        "digests": sorted(digests), "samples": samples, "notes": notes,
        "violation": viol, "runlog": runlog if os.environ.get(
            "DST_RUNLOG") else None}) + "\n")
    out.flush()


def time_real():
    from . import seams
    return seams.real_mono()


# -- shrinking and replay -------------------------------------------------------
def replay_tape(mod, values, hang_s=HANG_S):
    from .core import Tape
    return run_once(mod, Tape(values=values), hang_s)


def shrink(prop, path, seconds):
    """Minimise the tape in the replay file while the class persists."""
    boot.boot()
    mod = load(prop)
    with open(path) as f:
        rec = json.load(f)
    t0 = time_real()
    best = list(rec["tape"])
    cls = rec["class"]
    tried = 0
    hang = min(HANG_S, 20) if cls == "hang" else HANG_S

    def save(r):
        rec.update(tape=best, message=r.msg, digest=r.digest,
                   shrunk_from=rec.get("shrunk_from", len(rec["tape"])),
                   choices=["%s=%d/%d" % (a, b, c) for a, b, c in r.labels],
                   trace=[list(e) for e in r.log[-400:]],
                   faults=dict(r.stats.faults), run=r.stats.note)
        write_json(path, rec)

    def attempt(cand):
        nonlocal best, tried
        while cand and cand[-1] == 0:
            cand = cand[:-1]
        if len(cand) > len(best) or cand == best:
            return False
        tried += 1
        try:
            r = replay_tape(mod, cand, hang)
        except Exception:
            return False
        if r.kind in ("violation", "hang") and r.cls == cls:
            used = r.tape
            while used and used[-1] == 0:
                used = used[:-1]
            best = used if len(used) <= len(cand) else cand
            save(r)
            return True
        return False

    def late():
        return time_real() - t0 > seconds

    rec["shrunk_from"] = len(best)
    r = replay_tape(mod, best, hang)
    if r.cls == cls:
        save(r)
    progress = True
    while progress and not late():
        progress = False
        size = max(1, len(best) // 2)
        while size and not late():
            i = len(best)
            while i > 0 and not late():
                lo = max(0, i - size)
                if attempt(best[:lo] + best[i:]):
                    progress = True
                elif any(best[lo:i]) and attempt(
                        best[:lo] + [0] * (i - lo) + best[i:]):
                    progress = True
                i = min(lo, len(best))
            size //= 2
        for i in range(len(best)):
            if late():
                break
            while i < len(best) and best[i] > 1 and not late():
                if attempt(best[:i] + [best[i] // 2] + best[i + 1:]):
                    progress = True
                elif attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                    progress = True
                else:
                    break
    rec["shrink_attempts"] = tried
    write_json(path, rec)


def replay(path):
    """Exit status 1 when the recorded violation happens again, exactly."""
    with open(path) as f:
        rec = json.load(f)
    boot.boot()
    mod = load(rec["property"])
    r = replay_tape(mod, rec["tape"])
    same = r.kind in ("violation", "hang") and r.cls == rec["class"]
    exact = r.digest == rec["digest"]
    print("replay of %s: %s%s" % (path, r.kind if same or r.kind == "ok"
                                  else r.kind + " " + r.cls,
                                  ", identical event log" if exact else
                                  ", event log differs"))
    if r.kind in ("violation", "hang"):
        print("%s: %s" % (r.cls, r.msg))
        print("run: " + r.stats.note)
        for e in r.log[-25:]:
            print("  step %s %s %s" % tuple(e))
    if same and exact:
        return 1
    return 3 if same else 0


def write_json(path, rec):
    tmp = path + ".new"
    with open(tmp, "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


# -- the check -------------------------------------------------------------------
def spawn(args, **kw):
    env = dict(os.environ)
    env.update(boot.ENV)
    return subprocess.Popen([sys.executable, "-W", "ignore",
                             os.path.join(boot.VERIF, "check.py")] + args,
                            env=env, cwd=boot.VERIF, **kw)


def confirm(path, tries=2):
    """Replay in fresh processes; True when it reproduces exactly."""
    for _ in range(tries):
        p = spawn(["--replay", path], stdout=subprocess.PIPE,
                  stderr=subprocess.STDOUT)
        try:
            out, _ = p.communicate(timeout=HANG_S * 2)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            continue
        if p.returncode == 1:
            return out.decode()
    return None


def known_findings(prop):
    out = []
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    out.append(line[len("finding: "):].strip())
    return out


def check(prop, tier, verif_seed, workers=None, runs=None, wall=None):
    t0 = time.time()
    boot.ensure_env()
    boot.build_extensions()
    mod_meta = load_meta(prop)
    budget = mod_meta.TIERS[tier]
    count = runs or budget["runs"]
    wall = wall or budget["wall"]
    nw = workers or int(os.environ.get("DST_WORKERS", 0)) or min(
        8, os.cpu_count() or 1)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    procs = []
    for k in range(nw):
        procs.append(spawn(["--worker", prop, str(verif_seed), str(k),
                            str(nw), str(count), str(wall)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    results, errors, viols = [], [], []
    import threading

    def reader(k, p):
        out, err = p.communicate()
        line = out.decode(errors="replace").strip().splitlines()
        try:
            d = json.loads(line[-1])
        except (IndexError, ValueError):
            errors.append("worker %d ended with status %s\n%s" % (
                k, p.returncode, err.decode(errors="replace")[-3000:]))
            return
        if "error" in d:
            errors.append("run %d (seed %d)\n%s" % (d["index"], d["seed"],
                                                    d["error"]))
        else:
            results.append(d)
            if d["violation"]:
                viols.append(d["violation"])

    ths = [threading.Thread(target=reader, args=kp)
           for kp in enumerate(procs)]
    for t in ths:
        t.start()
    limit = wall + HANG_S + 30
    while any(t.is_alive() for t in ths):
        if viols or time.time() - t0 > limit:
            end = time.time() + 3      # let the others finish a little
            while any(t.is_alive() for t in ths) and time.time() < end:
                time.sleep(0.2)
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
        time.sleep(0.05)
    for t in ths:
        t.join()
    if viols:
        errors = []
    total = merge(results)
    status = 0
    lines = []
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\n")
        status = 2
        lines.append("ERROR property=%s: the check itself failed" % prop)
    found = None
    if viols:
        for v in sorted(viols, key=lambda v: (v["class"] == "hang",
                                              v["index"])):
            path = os.path.join(REPLAYS, "%s-%d-%d.json"
                                % (prop, verif_seed, v["index"]))
            rec = dict(v, property=prop, verif_seed=verif_seed)
            write_json(path, rec)
            if v["class"] != "hang" or True:
                p = spawn(["--shrink", prop, path,
                           "60" if tier == "quick" else "180"],
                          stderr=subprocess.DEVNULL)
                try:
                    p.wait(timeout=300)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            out = confirm(path)
            if out is None:
                write_json(path, rec)
                out = confirm(path)
            if out is None:
                lines.append("not reproduced: run %d, %s: %s"
                             % (v["index"], v["class"], v["message"]))
                status = 2
                continue
            with open(path) as f:
                rec = json.load(f)
            found = (path, rec)
            lines.append(out.strip())
            lines.append("run %d, seed %d; %d choices after minimisation "
                         "(from %s)" % (rec["index"], rec["seed"],
                                        len(rec["tape"]),
                                        rec.get("shrunk_from", "?")))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
            break
    wall_s = time.time() - t0
    if status == 0 and total["nontrivial"] < budget.get("min", 1):
        status = 2
        lines.append("ERROR property=%s: only %d runs tested the property "
                     "(need %d) in %.0f s" % (prop, total["nontrivial"],
                                              budget.get("min", 1), wall_s))
    for k in known_findings(prop):
        lines.append("KNOWN-FINDING: " + k)
    write_evidence(prop, tier, verif_seed, mod_meta, total, wall_s,
                   1 if status == 1 else 0, nw)
    sys.stdout.write("%s %s: %d runs (%d tested the property, %d distinct), "
                     "%.0f simulated s, %.1f s\n"
                     % (prop, tier, total["runs"], total["nontrivial"],
                        len(total["digests"]), total["sim_seconds"], wall_s))
    for x in lines:
        sys.stdout.write(x + "\n")
    sys.stdout.flush()
    if os.environ.get("DST_RUNLOG"):
        log = sorted(tuple(x) for d in results for x in d["runlog"])
        write_json(os.environ["DST_RUNLOG"], [list(x) for x in log])
    return status


def load_meta(prop):
    """The property module's constants, without importing pystruct."""
    import types
    path = os.path.join(PROPS, prop.lower() + ".py")
    ns = types.SimpleNamespace()
    import ast
    with open(path) as f:
        tree = ast.parse(f.read())
    ns.doc = ast.get_docstring(tree)
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 \
                and isinstance(node.targets[0], ast.Name):
            try:
                setattr(ns, node.targets[0].id, ast.literal_eval(node.value))
            except ValueError:
                pass
    return ns


def merge(results):
    t = {"runs": 0, "kinds": collections.Counter(),
         "faults": collections.Counter(), "probes": collections.Counter(),
         "notes": collections.Counter(), "sim_seconds": 0.0, "steps": 0,
         "nontrivial": 0, "digests": set(), "samples": []}
    for d in results:
        for k in ("runs", "sim_seconds", "steps", "nontrivial"):
            t[k] += d[k]
        for k in ("kinds", "faults", "probes", "notes"):
            t[k].update(d[k])
        t["digests"].update(d["digests"])
        t["samples"] += d["samples"]
    return t


COMMON_ASSUMPTIONS = [
    "CPython, numpy, cvxopt and ad3 compute what they document when the "
    "simulator does not make them fail",
    "seeded search: a clean batch is evidence for the runs sampled, "
    "not a proof",
]


def write_evidence(prop, tier, seed, mod, total, wall_s, violations, nw):
    hours = max(wall_s, 1e-9) / 3600.0
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["digests"]),
        "rule": mod.RULE,
        "samples": total["samples"][:6] or [{"note": "no passing run"}],
        "runs_that_tested_the_property": total["nontrivial"],
        "rejected_runs": total["kinds"].get("reject", 0),
        "simulated_runs_per_hour": round(total["runs"] / hours),
        "seeds_per_hour": round(total["runs"] / hours),
        "simulated_seconds": round(total["sim_seconds"], 3),
        "simulated_steps": total["steps"],
        "faults_injected": dict(sorted(total["faults"].items())),
        "probes": dict(sorted(total["probes"].items())),
        "workloads": dict(total["notes"].most_common(60)),
        "distinct_measure": "SHA-256 of the complete event log of a run "
                            "(every seam crossing, scheduling decision and "
                            "fault in order)",
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
        "worker_processes": nw,
    }
    write_json(os.path.join(EVIDENCE, prop + ".json"), {
        "property": prop, "tier": tier, "seed": seed,
        "level": "exploration", "coverage": cov,
        "assumptions": COMMON_ASSUMPTIONS + list(
            getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall_s, 3), "violations": violations})
