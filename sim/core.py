"""Shared pieces of the simulator: seeded choices, run context, violations."""
import hashlib, json, os, random

KNOWN = set(json.loads(os.environ.get("VERIF_KNOWN", "[]")))


class Violation(Exception):
    """A property does not hold on this run. `cls` identifies the kind of failure (kept while minimising)."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class HarnessError(BaseException):
    """The simulator cannot decide (a gap of a stand-in); never a verdict on the code."""


class Choices:
    """Every run-time decision of a run (who runs next, which task, which block first).

    Seeded: drawn from one PRNG and recorded. Replay: the recorded list, 0 once it is used up.
    Option 0 is always the plain choice (no preemption, natural order), so that minimising a
    schedule means turning its entries into 0.
    """

    def __init__(self, seed=None, replay=None):
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.log = []
        self.i = 0

    def pick(self, n, bias=None):
        """A number in [0, n). bias: probability of the plain choice 0."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.i] if self.i < len(self.replay) else 0
            self.i += 1
            if v >= n:
                v = n - 1
        else:
            if bias is not None and self.rng.random() < bias:
                v = 0
            else:
                v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.pick(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Ctx:
    """One simulated run."""

    def __init__(self, scn):
        self.scn = scn
        self.choices = Choices(scn.get("seed", 0) ^ 0x5EED, scn.get("choices"))
        self.h = hashlib.sha256()
        self.events = 0
        self.tail = []
        self.keep = bool(scn.get("keep_log"))
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0
        self.sample = None
        self.nontrivial = None
        self.sub = 0

    def log(self, *ev):
        line = json.dumps(ev, default=repr, sort_keys=True)
        self.h.update(line.encode("utf-8", "replace") + b"\n")
        self.events += 1
        self.simtime += 1
        if self.keep:
            self.tail.append(line)
        elif len(self.tail) < 60:
            self.tail.append(line[:300])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        """A reached state or interleaving, for the evidence's reach measure."""
        self.states.add(hashlib.sha1(json.dumps(key, default=repr, sort_keys=True).encode()).hexdigest()[:12])

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def finding(self, cls, msg):
        """A violation of a kind that known_findings.json may list as open: a listed one is only counted
        (the driver replays its recorded scenario, which is marked strict), any other fails the run."""
        if cls in KNOWN and not self.scn.get("strict"):
            self.probe("known_" + cls)
        else:
            self.fail(cls, msg)

    def result(self):
        return dict(hash=self.h.hexdigest()[:24], events=self.events, faults=self.faults, probes=self.probes,
                    states=sorted(self.states), choices=self.choices.log, sample=self.sample,
                    nontrivial=self.nontrivial, simtime=self.simtime, tail=self.tail)


def subseed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:6], "big")
