"""Every scheduling decision of a run goes through a Chooser: seeded, recorded, and replayable/minimisable as a list."""
import random


class Chooser:
    def __init__(self, seed, explicit=None):
        self.rng = random.Random(seed)
        self.explicit = None if explicit is None else list(explicit)
        self.i = 0
        self.rec = []

    def _take(self, draw):
        if self.explicit is not None:
            v = self.explicit[self.i] if self.i < len(self.explicit) else 0
            self.i += 1
        else:
            v = draw()
        self.rec.append(v)
        return v

    def pick(self, n):
        """index in range(n); 0 is the default (non-adventurous) choice"""
        if n <= 1:
            return 0
        return self._take(lambda: self.rng.randrange(n)) % n

    def gap(self, mean):
        """number of steps until the next preemption; 0 means: no further preemption"""
        def draw():
            if mean < 0:  # long and short runs mixed: one thread waits anywhere while others get far
                return int(3000 ** self.rng.random())
            if mean <= 1:
                return 1
            return 1 + int(self.rng.expovariate(1.0 / mean))
        return self._take(draw)
