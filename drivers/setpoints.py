"""Driver of C28: the set points of VariableThermostatTemperatureSimulator."""
import datetime as dt
import random
import warnings

import numpy as np
from vf import main, q, ql

from demod.simulators.heating_simulators import VariableThermostatTemperatureSimulator

warnings.simplefilter("ignore")
FOLLOW = ["Cool Conservers", "Hot and Cold Fluctuators", "On-Demand Sizzlers"]
FIXED = ["Steady and Savvy", "Toasty Cruisers"]
SWITCH = "On-off Switchers"
SCALE = 4


def made(rnd, ask, own):
    """The class, with made-up patterns (own) and known probabilities of a change for comfort."""
    class S(VariableThermostatTemperatureSimulator):
        def load_patterns(self):
            labels, fixed, mean, dev, prob = super().load_patterns()
            p = {"never": 0, "always": 1, "maybe": .4}[ask]
            if own is not None:
                mean, dev = own
            return labels, fixed, mean, dev, [p] * len(labels)
    return S


def new(rnd, n, o, a, start, how, ask, own):
    S = made(rnd, ask, own)
    np.random.seed(rnd.randrange(1 << 30))
    sim = S(n, o, a, start, pattern_attribution_method=how)
    labels, _, mean, dev, _ = sim.load_patterns()
    kinds = [labels[int(i)] for i in sim.pattern_type]
    P = [{"mean": q(mean[labels.index(k)], SCALE), "dev": q(dev[labels.index(k)], SCALE), "low": q(sim.LOW_T, SCALE), "half": SCALE // 2} for k in kinds]
    return sim, P, ["follow" if k in FOLLOW else "fixed" if k in FIXED else "switch" for k in kinds]


def patterns(rnd):
    if rnd.random() < .4:
        return None
    return [rnd.choice([15, 17, 18.5, 20, 22.5, 23]) for _ in range(6)], [rnd.choice([0, .5, 1, 1.5, 2, 3]) for _ in range(6)]


def shown(sim, n, rnd):
    r = sim.get_thermostat_temperatures()
    v = ql(r, n, SCALE)
    if rnd.random() < .5:
        r[:] = -7        # the caller may do what it wants with what it got
    return v


def run_one(rec, rnd, name, lives, start, how, ask, days=False, inc=10):
    """lives: per household [[occupancy, active], ...], the first one at the start."""
    n, own = len(lives), patterns(rnd)
    dt_ = rnd.choice([int, np.int64, float, np.uint8])
    O = lambda k: np.array([x[k][0] for x in lives], dtype=dt_)
    A = lambda k: np.array([x[k][1] for x in lives], dtype=dt_)
    o, a = O(0), A(0)
    sim, P, kind = new(rnd, n, o, a, start, how, ask, own)
    with rec.trace(name, how=how, ask=ask, P=P, kind=kind, inc=inc) as t:
        first = shown(sim, n, rnd)
        t.add("start", T=first, o=ql(o, n), a=ql(a, n))
        series, M = [first], [start.hour * 60 + start.minute]
        for k in range(1, len(lives[0])):
            o[:], a[:] = 3, 3          # what was given belongs to the caller
            o, a = O(k), A(k)
            if inc == 10 and rnd.random() < .5:
                sim.step(o, a)
            else:
                sim.step(o, a, increment=dt.timedelta(minutes=inc))
            T = shown(sim, n, rnd)
            t.add("step", T=T, o=ql(o, n), a=ql(a, n))
            series.append(T)
            M.append((M[-1] + inc) % 1440)
        if days:
            for h in range(n):
                if kind[h] == "fixed":
                    t.add("days", h=h + 1, S=[x[h] for x in series], M=M)


def life(rnd, k):
    out, x = [], [rnd.choice([0, 1, 2]), 0]
    for _ in range(k):
        if rnd.random() < .3:
            x = [rnd.choice([0, 0, 1, 2, 3])] * 2
            x[1] = rnd.randint(0, x[0])
        out.append(list(x))
    return out


def run(rec, inp, tier, seed):
    rnd = random.Random(seed)
    beh = [b["steps"] for b in inp.get("beh", [])]
    for i in range(0, len(beh), 40):
        for how in FOLLOW + [SWITCH]:
            run_one(rec, rnd, "behaviours " + how, beh[i:i + 40], dt.datetime(2014, 1, 1, rnd.randrange(24), 10 * rnd.randrange(6)), how,
                    rnd.choice(["never", "never", "always", "maybe"]))
    for _ in range(inp.get("n", 0)):
        lives = [life(rnd, 40) for _ in range(rnd.randint(1, 12))]
        run_one(rec, rnd, "any kinds", lives, dt.datetime(2014, rnd.randint(1, 12), 27, rnd.randrange(24), 10 * rnd.randrange(6)),
                rnd.choice(["living lab", "random"] + FOLLOW), rnd.choice(["never", "always", "maybe"]), inc=rnd.choice([10, 10, 5, 1]))
    for _ in range(inp.get("days", 0)):
        inc = rnd.choice([10, 10, 5])
        lives = [life(rnd, rnd.choice([1, 2]) * 1440 // inc + rnd.randrange(1440 // inc)) for _ in range(1)]
        lives += [life(rnd, len(lives[0])) for _ in range(rnd.randint(3, 9))]
        tz = rnd.choice([None, None, dt.timezone(dt.timedelta(hours=rnd.choice([-5, 1, 9])))])
        run_one(rec, rnd, "whole days", lives, dt.datetime(2014, rnd.randint(1, 12), rnd.randint(1, 28), rnd.randrange(24), 10 * rnd.randrange(6), tzinfo=tz),
                rnd.choice(FIXED + ["living lab", "random"]), rnd.choice(["never", "always", "maybe"]), days=True, inc=inc)


main(run)
