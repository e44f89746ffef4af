"""A random number generator whose draws are scripted: every uniform draw is the same known
number, integers over a range may be scripted."""
import math
import numpy as np


def level_u(L):
    """A uniform draw for which 'accept with probability 2^-d' means d <= L."""
    return 2.0 ** -(L + .5)


class StubRNG(np.random.RandomState):
    """uniform draws: constant `u` (None: really random); randint: `ints(lo, hi)` if it
    returns something, else really random."""

    def __init__(self, u=None, seed=0, ints=None):
        super().__init__(seed)
        self.u, self.ints = u, ints

    def _flat(self, size):
        if size is None or size == ():
            return self.u
        return np.full(size, self.u)

    def rand(self, *d):
        return super().rand(*d) if self.u is None else self._flat(d if d else None)

    def random_sample(self, size=None):
        return super().random_sample(size) if self.u is None else self._flat(size)

    random = random_sample
    ranf = random_sample
    sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        if self.u is None:
            return super().uniform(low, high, size)
        return low + (high - low) * self._flat(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if self.ints is not None:
            lo, hi = (0, low) if high is None else (low, high)
            if size is None:
                v = self.ints(lo, hi)
                if v is not None:
                    return int(v)
            else:
                v = [self.ints(lo, hi) for _ in range(int(np.prod(size)))]
                if all(x is not None for x in v):
                    return np.array(v, dtype=dtype).reshape(size)
        return super().randint(low, high, size=size, dtype=dtype)

    random_integers = None
