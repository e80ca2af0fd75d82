"""Every choice a simulated run makes (who runs next, how many bytes arrive,
which call fails, how long anything takes) is one numbered decision on a named
stream.  0 is always the benign choice.  A run is a pure function of
(plan, seed), and a recorded table of the non-benign decisions replays it."""
import random


class Decisions(object):
    def __init__(self, seed=None, table=None, rate=1.0):
        self.seed = seed
        self.table = table          # {label: {index(str/int): value}} or None
        if table is not None:
            self.table = {l: {int(i): v for i, v in t.items()}
                          for l, t in table.items()}
        self.rate = rate            # scales every probability (swarm knob)
        self.streams = {}
        self.count = {}
        self.taken = {}             # non-benign decisions actually taken

    def _rng(self, label):
        r = self.streams.get(label)
        if r is None:
            r = self.streams[label] = random.Random('%s|%s' % (self.seed, label))
        return r

    def pick(self, label, n, p=1.0):
        """A value in 0..n-1; non-zero with probability about p."""
        i = self.count.get(label, 0)
        self.count[label] = i + 1
        if self.table is not None:
            t = self.table.get(label)
            v = t.get(i, 0) if t else 0
            if v >= n:
                v = n - 1 if n > 0 else 0
        else:
            if n <= 1:
                # keep the streams aligned whatever n is
                self._rng(label).random()
                v = 0
            else:
                r = self._rng(label)
                if r.random() < p * self.rate:
                    v = r.randrange(n)
                else:
                    v = 0
        if v:
            self.taken.setdefault(label, {})[i] = v
        return v

    def chance(self, label, p):
        """True with probability p (recorded as 1)."""
        i = self.count.get(label, 0)
        self.count[label] = i + 1
        if self.table is not None:
            t = self.table.get(label)
            v = bool(t and t.get(i, 0))
        else:
            v = self._rng(label).random() < p * self.rate
        if v:
            self.taken.setdefault(label, {})[i] = 1
        return v

    def dump(self):
        return {l: {str(i): v for i, v in t.items()} for l, t in self.taken.items()}

    def ntaken(self):
        return sum(len(t) for t in self.taken.values())
