"""Scripted uniform draws: the random numbers the boundary cases need, where the code draws uniforms.

used() tells whether exactly the scripted numbers were consumed; if the code draws in another way, the exact
clauses are not claimed and only what holds for any draw is judged."""
import numpy as np

U = 1 << 20          # unit of the scripted numbers; U-1 stands for the largest float below 1


def value(n):
    return 1 - 2.0 ** -53 if n == U - 1 else n / U


class Scripted:
    def __init__(self, numbers):
        self.numbers = list(numbers)
        self.pos = 0
        self.other = False

    def _take(self, size):
        n = 1 if size is None else int(np.prod(size))
        if self.pos + n > len(self.numbers):
            self.other = True
            return self._orig(size=size)
        v = np.array([value(x) for x in self.numbers[self.pos:self.pos + n]])
        self.pos += n
        return float(v[0]) if size is None else v.reshape(size)

    def __enter__(self):
        self._saved = {k: getattr(np.random, k) for k in
                       ('uniform', 'rand', 'random', 'random_sample', 'choice', 'randint', 'default_rng', 'shuffle',
                        'permutation', 'normal')}
        self._orig = self._saved['uniform']

        def uniform(low=0.0, high=1.0, size=None):
            if np.isscalar(low) and np.isscalar(high) and (low, high) == (0.0, 1.0):
                return self._take(size)
            self.other = True
            return self._orig(low, high, size)
        np.random.uniform = uniform
        np.random.rand = lambda *d: self._take(d if d else None)
        np.random.random = lambda size=None: self._take(size)
        np.random.random_sample = lambda size=None: self._take(size)

        def wrap(k):
            f = self._saved[k]

            def g(*a, **kw):
                self.other = True
                return f(*a, **kw)
            return g
        for k in ('choice', 'randint', 'default_rng', 'shuffle', 'permutation', 'normal'):
            setattr(np.random, k, wrap(k))
        return self

    def __exit__(self, *a):
        for k, f in self._saved.items():
            setattr(np.random, k, f)

    def used(self):
        return not self.other and self.pos == len(self.numbers)
