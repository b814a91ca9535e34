"""core.py - choice sequences, run context, outcome bookkeeping.

One integer decides everything: a run is a pure function of (scenario, seed) -- or of
(scenario, recorded choice list) on replay.  Every nondeterministic decision of the simulator
is drawn from `Choices`.  The value 0 always means the simplest thing (no fault, FIFO
schedule, first alternative), and reading beyond the end of a recorded list yields 0, so
that shortening or zeroing the list simplifies the run.
"""
import collections
import hashlib
import random


class Violation(BaseException):
    """Raised by an oracle: the property is broken in this run."""
    def __init__(self, kind, msg, data=None):
        super().__init__(kind, msg)
        self.kind, self.msg, self.data = kind, msg, data


class Choices:
    __slots__ = ('rng', 'replay', 'log', 'seed')

    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.log = []

    def draw(self, n):
        """-> int in [0, n)"""
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.log)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def chance(self, num, den=100):
        """True with probability num/den.  0 maps to False."""
        if num <= 0:
            return False
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first pair is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def rint(self, a, b):
        """-> int in [a, b], a is the simplest."""
        return a + self.draw(b - a + 1)

    def shuffle(self, lst):
        """seeded permutation; all-zero draws leave the order unchanged."""
        lst = list(lst)
        res = []
        while lst:
            res.append(lst.pop(self.draw(len(lst))))
        return res

    def sizes(self, total, parts_max, bias_boundary=()):
        """splits `total` into a list of positive part-sizes."""
        if total <= 0:
            return []
        k = self.rint(0, min(parts_max, total) - 1)
        cuts = set()
        for _ in range(k):
            if bias_boundary and self.chance(50):
                c = self.pick(bias_boundary) + self.rint(0, 4) - 2
            else:
                c = self.rint(1, total - 1) if total > 1 else 1
            if 0 < c < total:
                cuts.add(c)
        cuts = sorted(cuts)
        return [b - a for a, b in zip([0] + cuts, cuts + [total])]


class Ctx:
    """Context of one simulated run."""

    def __init__(self, choices, tier='quick', verbose=False):
        self.ch = choices
        self.tier = tier
        self.verbose = verbose
        self.trace = []                # human-readable event trace (deterministic!)
        self.sched_hash = hashlib.blake2b(digest_size=8)
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.nontrivial = False
        self.violations = []           # (kind, msg)
        self.case = ''                 # short description of generated workload
        self.switches = 0
        self.scrub = []                # (text, replacement): what differs from run to run

    def ev(self, *args):
        s = ' '.join(str(a) for a in args)
        for a, b in self.scrub:
            s = s.replace(a, b)
        self.sched_hash.update(s.encode('utf-8', 'replace') + b'\n')
        if len(self.trace) < 4000:
            self.trace.append(s)

    def fault(self, kind, *args):
        self.faults[kind] += 1
        self.nontrivial = True
        self.ev('FAULT', kind, *args)

    def probe(self, name):
        self.probes[name] += 1

    def violate(self, kind, msg, stop=False):
        msg = str(msg)
        for a, b in self.scrub:
            msg = msg.replace(a, b)
        self.ev('VIOLATION', kind, msg)
        self.violations.append((kind, str(msg)))
        if stop:
            raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg)
        return cond

    def outcome(self):
        self.case = str(self.case)
        for a, b in self.scrub:
            self.case = self.case.replace(a, b)
        self.sched_hash.update(str(self.case).encode('utf-8', 'replace'))
        return {'violations': self.violations,
                'faults': dict(self.faults),
                'probes': dict(self.probes),
                'simtime': self.simtime,
                'hash': self.sched_hash.hexdigest(),
                'nontrivial': self.nontrivial or bool(self.faults) or self.probes.get('preemption', 0) > 0,
                'choices': self.ch.log,
                'case': self.case,
                'switches': self.switches,
                'trace': self.trace if (self.verbose or self.violations) else self.trace[:40]}
