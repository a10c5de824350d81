"""Helpers of the drivers: recording traces of what the public API shows, in integers TLC can read."""
import json
import signal
import sys
from fractions import Fraction

import numpy as np

WRONG = -1999999999       # stands for a value that is not finite, not exact, or too large: no specification allows it


class Shape(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("the call did not return")


signal.signal(signal.SIGALRM, _alarm)


def q(x, scale=1):
    """x*scale as an exact integer, or WRONG."""
    if isinstance(x, (bool, np.bool_)):
        return int(x) * scale
    try:
        if isinstance(x, (int, np.integer)):
            v = int(x) * scale
            return v if abs(v) < 1999999999 else WRONG
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return WRONG
        v = Fraction(x) * scale
    except Exception:
        return WRONG
    if v.denominator != 1 or abs(v) >= 1999999999:
        return WRONG
    return int(v)


def qr(x, scale):
    """x*scale rounded to the nearest integer (for values where floating point rounding is legitimate)."""
    try:
        x = float(x)
    except Exception:
        return WRONG
    if x != x or abs(x * scale) >= 1999999999:
        return WRONG
    return int(round(x * scale))


def ql(a, n=None, scale=1, f=q):
    """A 1-D array as a list of ints; its length must be n."""
    a = np.asarray(a)
    if a.ndim == 0 and n is not None:
        raise Shape("scalar where %s values were expected" % n)
    if a.ndim != 1 or (n is not None and len(a) != n):
        raise Shape("shape %s where (%s,) was expected" % (a.shape, n))
    return [f(x, scale) for x in a]


def qm(a, shape, scale=1, f=q):
    a = np.asarray(a)
    if a.shape != tuple(shape):
        raise Shape("shape %s where %s was expected" % (a.shape, tuple(shape)))
    return [[f(x, scale) for x in r] for r in a]


class Recorder:
    def __init__(self):
        self.traces = []

    def trace(self, name, **cfg):
        return _Trace(self, name, cfg)


class _Trace:
    """Context manager: an exception of the code under test ends the trace with a 'raised' event."""

    def __init__(self, rec, name, cfg, limit=120):
        self.rec, self.name, self.cfg, self.ev, self.limit = rec, name, cfg, [], limit

    def __enter__(self):
        signal.alarm(self.limit)
        return self

    def add(self, op, **kw):
        kw["op"] = op
        self.ev.append(kw)

    def __exit__(self, et, e, tb):
        signal.alarm(0)
        if et is not None and not issubclass(et, Exception):
            return False
        if et is not None:
            self.ev.append({"op": "raised", "exc": ("%s: %s" % (et.__name__, e))[:300]})
        self.rec.traces.append({"name": self.name, "cfg": self.cfg, "ev": self.ev})
        return True


def main(fn):
    d = json.load(open(sys.argv[1]))
    rec = Recorder()
    np.random.seed(d["seed"] % (2 ** 31))
    fn(rec, d["input"], d["tier"], d["seed"] + 1000003 * d.get("job", 0))
    json.dump(rec.traces, open(d["out"], "w"))
