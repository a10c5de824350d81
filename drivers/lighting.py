"""The two lighting simulators on made-up bulbs (ratings are powers of two, so the power shows which bulbs are on)."""
import random
import warnings
import numpy as np
from same import Same
from vf import main, q, qr, ql, WRONG
from demod.simulators.lighting_simulators import FisherLightingSimulator, CrestLightingSimulator

warnings.simplefilter("ignore")


class Data:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def load_fisher_lighting(self):
        return dict(self.fisher)

    def load_crest_lighting(self):
        return {"calibration_scalar": self.cal, "effective_occupancy": np.array(self.eff) / 8, "durations_cdf": np.array(self.cdf) / 128,
                "durations_minutes_low": np.array(self.low, float), "durations_minutes_high": np.array(self.high, float),
                "irradiance_threshold_mean": self.mean, "irradiance_threshold_std": self.std}

    def load_bulbs_config(self, subgroup={}):
        return np.array(self.configs, float)

    def load_bulbs(self):
        return np.array(self.ratings, float), np.diff([0] + self.pen) / 8

    def load_installed_bulbs_stats(self, subgroup={}):
        return self.nmean / 2, self.nstd / 2


def fisher(rec, rnd, name):
    nh = rnd.choice([1, 1, 2, 3, 5])
    width = rnd.choice([1, 2, 4, 8, 32])
    lo = rnd.choice([0, 10, 30])
    use = rnd.choice([1, 5, 12, 60])
    data = Data(fisher={"irradiation_threshold_min": lo, "irradiation_threshold_max": lo + width, "individual_light_use": use})
    with rec.trace(name, kind="fisher", nh=nh, lo=lo, hi=lo + width, use=use, exact=True) as t:
        occ, irr = [1] * nh, 0
        kw = {}
        if rnd.random() < .6:
            occ = [rnd.randint(0, 6) for _ in range(nh)]
            kw["initial_active_occupancy"] = np.array(occ)
        if rnd.random() < .6:
            irr = rnd.choice([0, lo, lo + 1, lo + width, 500])
            kw["initial_irradiance"] = irr
        sim = FisherLightingSimulator(nh, data=data, **kw)

        def obs():
            gs = [sim.get_power_consumption, sim.get_power_consumption]
            gs += [g for g in (getattr(sim, n, None) for n in ("get_power_demand", "get_energy_consumption")) if g]
            out = None
            for g in gs:
                try:
                    v = ql(g(), nh, width)
                except NotImplementedError:
                    continue
                if out is not None and v != out:
                    return [WRONG] * nh
                out = v
            return out
        t.add("fready", occ=occ, irr=irr, demand=obs())
        for _ in range(rnd.randint(1, 12)):
            occ = [rnd.choice([0, 0, 1, 1, 2, 3, 6]) for _ in range(nh)]
            irr = rnd.choice([0, lo - 1, lo, lo + 1, lo + width // 2, lo + width, lo + width + 1, 1000])
            o = np.array(occ, dtype=rnd.choice([int, float]))
            sim.step(o, rnd.choice([int, float])(irr))
            t.add("fstep", occ=occ, irr=irr, demand=obs(), kept=o.tolist() == occ)


def bulbs(rec, rnd, name, exact, init_exact, steps, beh=None, seed=0):
    nh = 1 if beh else rnd.choice([1, 2, 3])
    nb = 2 if beh else rnd.randint(1, 7)
    algo = "config" if beh else rnd.choice(["config", "config", "randn"])
    if beh:
        configs = [[1, 2]]
    else:
        configs = []
        for _ in range(rnd.randint(1, 4)):
            r = [1 << i for i in range(nb)]
            rnd.shuffle(r)
            configs.append([x if rnd.random() < .8 else float("nan") for x in r])
    k = rnd.randint(1, 3)
    cdf = [64, 128] if beh else sorted(rnd.sample(range(4, 127), k - 1)) + [128]
    low, high = ([1, 2], [1, 2]) if beh else ([], [])
    if not beh:
        a = rnd.choice([1, 1, 2, 5])
        for _ in range(k):
            low.append(a)
            a += rnd.choice([0, 1, 3, 9])
            high.append(a)
            a += 1
    eff = [0, 0, 24] if beh else [0] + sorted(rnd.choice([4, 8, 12, 16, 20]) for _ in range(6))
    ratings = rnd.sample([5, 11, 20, 40, 60], 3)
    pen = sorted(rnd.sample(range(1, 8), 2)) + [8]
    data = Data(cal=1 / 16, eff=eff, cdf=cdf, low=low, high=high, mean=50 if beh else rnd.choice([60, 40]), std=0 if beh else rnd.choice([0, 10]), configs=configs,
                ratings=ratings, pen=pen, nmean=rnd.choice([0, 5, 8]), nstd=rnd.choice([0, 1, 6]))
    same = Same()
    same.k = rnd.randint(0, 5)
    same.z = [0] if beh else [rnd.choice([-3, -1, 0, 1, 2]) for _ in range(3)]
    u0 = 1 if beh else 1 << rnd.randint(0, 6)
    cfg = dict(kind="crest", nh=nh, exact=exact, initexact=init_exact, algo=algo, u0=u0, k=same.k, z=same.z, eff=eff, cdf=cdf, low=low, high=high,
               mean=data.mean, std=data.std, configs=[[0 if x != x else x for x in r] for r in configs], ratings=ratings, pen=[16 * p for p in pen],
               nmean=data.nmean, nstd=data.nstd, power=[], rel=[], thr=[])
    with rec.trace(name, **cfg) as t:
        np.random.seed(seed)
        try:
            if init_exact:
                same.__enter__()
                same.u = u0
            sim = CrestLightingSimulator(nh, data=data, bulbs_sampling_algo=algo)
            if exact and not init_exact:
                same.__enter__()
            if init_exact and not exact:
                same.__exit__()
            t.cfg["initexact"] = init_exact and not same.other
            p = np.asarray(sim.bulbs_power, float)
            t.cfg["power"] = [[0 if x != x else q(x) for x in r] for r in p]
            t.cfg["rel"] = [[qr(x, 1000000) for x in r] for r in np.asarray(sim.relative_use)]
            t.cfg["thr"] = [qr(x, 1000) for x in np.asarray(sim.irradiance_threshold)]

            def obs():
                d = ql(sim.get_power_demand(), nh)
                return {"demand": d, "gains": ql(sim.get_thermal_gains(), nh), "again": ql(sim.get_power_demand(), nh)}
            t.add("ready", occ=[0] * nh, irr=0, u=0, **obs())
            for s in range(steps):
                if beh:
                    b = beh["steps"][s]
                    occ = [0 if not b["occ"] else 2 if b["ask"] else 1]
                    irr = 10 if b["dark"] else 100
                    same.u = 10 if b["d"] == 1 else 100
                else:
                    stay = rnd.random() < .7
                    occ = occ if s and stay else [rnd.choice([0, 1, 1, 2, 3, 5]) for _ in range(nh)]
                    irr = rnd.choice([0, 30, data.mean, data.mean - 1, data.mean + data.std, data.mean - data.std, 80, 1000])
                    same.u = rnd.choice([0, 3, 6, 7, 12, 20, 40, 64, 90, 126])
                o = np.array(occ)
                sim.step(o, irr)
                t.add("step", occ=occ, irr=irr, u=same.u, kept=o.tolist() == occ, **obs())
        finally:
            if same.on:
                same.__exit__()
    if same.other:
        t.cfg["exact"] = False


def run(rec, inp, tier, seed):
    rnd = random.Random(seed)
    for i, b in enumerate(inp.get("beh", [])):
        bulbs(rec, rnd, "beh%d" % i, True, True, len(b["steps"]), beh=b)
    for i in range(inp.get("n", 0)):
        fisher(rec, rnd, "fisher%d" % i)
        bulbs(rec, rnd, "bulbs%d" % i, True, rnd.random() < .5, rnd.choice([12, 25, 40]), seed=rnd.randrange(1 << 30))
    for i in range(inp.get("free", 0)):
        bulbs(rec, rnd, "free%d" % i, False, rnd.random() < .3, rnd.choice([25, 60]), seed=rnd.randrange(1 << 30))


if __name__ == "__main__":
    main(run)
