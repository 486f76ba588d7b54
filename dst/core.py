"""The world of one simulated run: choice tape, virtual clock, event log, fault
bookkeeping.  Nothing in here reads a real clock or an unseeded generator."""
import collections
import hashlib
import random


class Violation(Exception):
    """The property does not hold in this run.

    cls is the violation class: what the shrinker has to preserve."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class SimCrash(BaseException):
    """The simulated process died here (no handler of the code may run on)."""


class StepBudget(BaseException):
    """The run used up its steps: no progress."""


class Reject(Exception):
    """This run tests nothing (a precondition failed); it is not counted."""


class Tape:
    """Every choice of a run.  Replaying = reading the recorded list; reads
    past its end are 0, and 0 is always the least eventful choice."""

    def __init__(self, seed=None, values=None):
        self.rng = random.Random(seed) if values is None else None
        self.values = [] if values is None else list(values)
        self.replaying = values is not None
        self.pos = 0
        self.labels = []

    def draw(self, n, label=""):
        """An integer in [0, n)."""
        n = int(n)
        if n <= 1:
            return 0
        if self.replaying:
            v = self.values[self.pos] % n if self.pos < len(self.values) else 0
        else:
            v = self.rng.randrange(n)
            self.values.append(v)
        self.labels.append((label, v, n))
        self.pos += 1
        return v

    # -- derived choices (all reduce to draw) --------------------------------
    def choice(self, seq, label=""):
        return seq[self.draw(len(seq), label)]

    def chance(self, percent, label=""):
        """True with the given probability; 0 on the tape is False."""
        return self.draw(1000, label) >= 1000 - int(10 * percent)

    def between(self, lo, hi, label=""):
        return lo + self.draw(hi - lo + 1, label)

    def used(self):
        """The values consumed, in order."""
        return [v for _, v, _ in self.labels]


class Clock:
    """Virtual time.  Simulated work takes simulated time; faults make the
    wall clock jump."""

    def __init__(self, start=1.0e9):
        self.mono = 0.0        # true elapsed time
        self.offset = start    # wall = mono + offset
        self.frozen = False
        self.reads = 0

    def advance(self, dt):
        self.mono += dt

    def wall(self):
        self.reads += 1
        return self._frozen_at if self.frozen else self.mono + self.offset

    def jump(self, dt):
        self.offset += dt

    def freeze(self):
        self._frozen_at = self.mono + self.offset
        self.frozen = True


class World:
    """One simulated execution.  Entered as a context manager it becomes the
    world all seams talk to."""

    current = None

    def __init__(self, tape, stats=None, max_steps=200000, name="run"):
        self.tape = tape
        self.name = name
        self.clock = Clock()
        self.steps = 0
        self.max_steps = max_steps
        self.log = []                 # (step, kind, detail): the trace
        self.digest = hashlib.sha256()
        self.stats = stats if stats is not None else Stats()
        self.hooks = []               # called as hook(world, kind, detail)
        self.latency = None           # kind -> seconds
        self.backend = None           # worker scheduling, see seams.Workers
        self.threads = None           # caller threads, see threads.Scheduler
        self.disk = None
        self.solver = None            # QP/LP faults
        self.infer_depth = 0
        self.samples = 0              # samples inferred so far
        self.quiet_points = 0
        self.on_infer = None          # answers inference calls, see workloads
        self.qp_status = []           # status of every QP/LP solved
        self.entropy = random.Random(20240229)   # what the OS would give
        self._prev = []

    def __enter__(self):
        self._prev.append(World.current)
        World.current = self
        return self

    def __exit__(self, *exc):
        World.current = self._prev.pop()
        self.stats.steps += self.steps
        self.stats.sim_seconds += self.clock.mono
        return False

    def event(self, kind, detail=""):
        """Record something that happened (never draws, never raises)."""
        if len(self.log) < 4000:
            self.log.append((self.steps, kind, str(detail)))
        self.digest.update(("%s|%s;" % (kind, detail)).encode())

    def fault(self, kind, detail=""):
        """A fault actually fired."""
        self.stats.faults[kind] += 1
        self.event("FAULT " + kind, detail)

    def probe(self, name, n=1):
        """A rare condition was reached."""
        self.stats.probes[name] += n

    def point(self, kind, detail=""):
        """A seam: time passes here, and faults can strike here."""
        if self.quiet_points:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepBudget("%d steps" % self.steps)
        self.clock.advance(self.latency(kind) if self.latency else 1e-3)
        self.event(kind, detail)
        for h in list(self.hooks):
            h(self, kind, detail)


class Stats:
    """What one run (or, merged, a batch of runs) covered."""

    def __init__(self):
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_seconds = 0.0
        self.steps = 0
        self.nontrivial = False   # set by the property: the run tested it
        self.note = ""            # one line describing the run


class silence_points:
    """Run harness code through the seams without it counting as the system's
    own activity."""

    def __init__(self, world=None):
        self.w = world or World.current

    def __enter__(self):
        if self.w is not None:
            self.w.quiet_points += 1

    def __exit__(self, *a):
        if self.w is not None:
            self.w.quiet_points -= 1
        return False
