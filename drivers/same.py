"""Draws scripted in bulk: every uniform draw gets one number, whatever the order in which the code draws."""
import numpy as np

NAMES = ("choice", "normal", "default_rng", "shuffle", "permutation", "exponential", "gamma", "beta", "binomial", "multinomial")


class Same:
    """While active, all uniform draws return u, all Poisson draws v, all integer draws low + k mod (high - low)."""

    def __init__(self):
        self.u, self.v, self.k, self.other = 127, 0, 0, False
        self.on = False
        self.z = None            # the numbers normal draws get, in turn (None: real draws)

    def __enter__(self):
        self.on = True
        self.saved = {n: getattr(np.random, n) for n in NAMES + ("uniform", "rand", "random", "random_sample", "poisson", "randint", "randn")}
        val = lambda: 1 - 2.0 ** -53 if self.u == 127 else self.u / 128

        def arr(size, x):
            return x if size is None else np.full(size, x)

        def uniform(low=0.0, high=1.0, size=None):
            if not (np.isscalar(low) and np.isscalar(high) and (low, high) == (0.0, 1.0)):
                self.other = True
                return self.saved["uniform"](low, high, size)
            return arr(size, val())

        def poisson(lam=1.0, size=None):
            shape = np.shape(lam) if size is None else size
            return np.full(shape, self.v) if shape != () else self.v

        def randint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            low, high = np.asarray(low), np.asarray(high)
            if np.any(high <= low):
                return self.saved["randint"](low, high, size)
            r = low + self.k % (high - low)
            return np.broadcast_to(r, size).copy() if size is not None else (r if r.shape else int(r))
        np.random.uniform, np.random.poisson, np.random.randint = uniform, poisson, randint
        np.random.rand = lambda *d: arr(d if d else None, val())
        np.random.random = np.random.random_sample = lambda size=None: arr(size, val())

        def normal(loc=0.0, scale=1.0, size=None):
            z = np.resize(np.array(self.z, float), 1 if size is None else size)
            return loc + scale * (float(z[0]) if size is None else z)

        def wrap(n):
            def g(*a, **kw):
                self.other = True
                return self.saved[n](*a, **kw)
            return g
        for n in NAMES:
            setattr(np.random, n, wrap(n))
        if self.z is not None:
            np.random.normal = normal
            np.random.randn = lambda *d: normal(size=d if d else None)
        return self

    def __exit__(self, *a):
        self.on = False
        for n, f in self.saved.items():
            setattr(np.random, n, f)
