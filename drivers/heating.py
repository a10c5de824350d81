"""The heating modules and their combination, on made-up buildings and systems with whole numbers, so that the values of
the first steps are exact; longer runs are recorded rounded, and the specification allows for the rounding."""
import copy
import datetime as dt
import random
import warnings
import numpy as np
from vf import main, q, qr, Shape, WRONG
from demod.simulators.heating_simulators import (
    BuildingThermalDynamics, FiveModulesHeatingSimulator, HeatDemand, HeatingSystem, SystemControls, Thermostats)

warnings.simplefilter("ignore")
np.seterr(all="ignore")
U = 1024
NAN = -999999999


class Vector:
    """While active, every draw gives household h the same number u[h] (mapped to the range that was asked for)."""

    def __init__(self, u):
        self.u, self.other = np.asarray(u, dtype=float), False

    def __enter__(self):
        names = ("uniform", "rand", "random", "random_sample", "randn", "normal", "standard_normal", "choice", "randint")
        self.saved = {n: getattr(np.random, n) for n in names}

        def vec(size):
            if size is None:
                return self.u[0]
            shape = (size,) if np.isscalar(size) else tuple(size)
            if shape == (len(self.u),):
                return self.u.copy()
            self.other = True
            return self.saved["uniform"](size=size)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * vec(size)
        np.random.rand = lambda *d: vec(d or None)
        np.random.random = np.random.random_sample = lambda size=None: vec(size)

        def wrap(n):
            def g(*a, **kw):
                self.other = True
                return self.saved[n](*a, **kw)
            return g
        for n in ("randn", "normal", "standard_normal", "choice", "randint"):
            setattr(np.random, n, wrap(n))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


class Enc:
    """Encodes numbers in units of 1/U and notices whether all of them were exact."""

    def __init__(self):
        self.exact = True

    def one(self, x, scale=U):
        x = float(x)
        if x != x:
            return WRONG
        v = qr(x, scale)
        if v != WRONG and abs(x * scale - v) > 1e-4:
            self.exact = False
        return v

    def arr(self, a, n, scale=U):
        a = np.asarray(a)
        if a.shape != (n,):
            raise Shape("shape %s where (%d,) was expected" % (a.shape, n))
        return [self.one(x, scale) for x in a]


def bools(a, n):
    a = np.asarray(a)
    if a.shape != (n,):
        raise Shape("shape %s where (%d,) was expected" % (a.shape, n))
    return [bool(x) for x in a]


class Data:
    """Buildings and systems; dt: step size in seconds."""

    def __init__(self, rnd, dts, n=None, one=None):
        m = n or rnd.randint(1, 4)
        self.dts, self.m = dts, m
        cuts = sorted(rnd.sample(range(1, 8), m - 1)) + [8]
        self.cdf = [c / 8 for c in cuts]
        self.pdf = [(b - a) / 8 for a, b in zip([0] + cuts[:-1], cuts)]
        pick = lambda *v: [rnd.choice(v) for _ in range(m)]
        self.b = {"Kb": pick(32, 64), "Ki": pick(32, 64, 128), "Ke": pick(16, 32), "Hv": pick(0, 1, 2, 4),
                  "Hem": pick(1, 2, 4, 8), "mult": pick(0, 1, 2, 4), "nominal": pick(40, 45, 50)}
        pairs = pick((2, 2, 1), (4, 4, 2), (3, 6, 2), (6, 3, 2), (12, 4, 3))
        self.b.update(Hbi=[x[0] for x in pairs], Hob=[x[1] for x in pairs], Hs=[x[2] for x in pairs])
        self.s = {"Kc": pick(16, 32, 64), "Hl": pick(0, 1, 2), "combi": pick(False, False, True), "fuel": pick("Mainsgas", "Electricity"),
                  "flow": pick(1, 2, 3), "toW": pick(512, 1000, 1500), "maxS": pick(64, 128, 256, 256, 1024), "maxW": pick(64, 128, 256, 512),
                  "pump": pick(10, 20), "standby": pick(0, 5)}
        for i in range(m):
            if rnd.random() < .12:
                self.s["maxS"][i] = 0
            if rnd.random() < .12:
                self.s["maxW"][i] = 0
            if self.s["maxS"][i] == self.s["maxW"][i] == 0 and rnd.random() < .7:
                self.s["flow"][i] = self.s["toW"][i] = 0
        if one:
            for k, v in one.items():
                (self.b if k in self.b else self.s)[k] = [v] * m
        self.sh, self.hw, self.em = rnd.choice([[18, 20, 22], [20], [19, 21]]), rnd.choice([[50], [45, 55]]), rnd.choice([40, 50])
        self.band = rnd.choice([{"space_heating": 1, "hot_water": 5, "emitter": 5}, {"space_heating": 2, "hot_water": 3, "emitter": 4},
                                {"space_heating": .5, "hot_water": 8, "emitter": 0.25}])

    def load_buildings_dict(self, subgroup={}):
        f = lambda k, z=1.0: np.array(self.b[k], dtype=float) * z
        return {"number": self.m, "equipped_prob": np.array(self.pdf), "emitters_target_temperature": f("nominal"),
                "emitters_capacitance": f("Ke", self.dts), "emitters_transfer_coef": f("Hem"), "ext_capacitance": f("Kb", self.dts),
                "int_capacitance": f("Ki", self.dts), "build_int_transfer_coef": f("Hbi"), "out_build_transfer_coef": f("Hob"),
                "ventilation_transfer_coef": f("Hv"), "floor_area": np.full(self.m, 100.), "irradiance_multiplier": f("mult")}

    def load_heating_system_dict(self, subgroup={}):
        f = lambda k, z=1.0: np.array(self.s[k], dtype=float) * z
        return {"number": self.m, "equipped_prob": np.array(self.pdf), "name": np.array(["S%d" % i for i in range(self.m)]),
                "is_combi": np.array(self.s["combi"]), "fuel_type": np.array(self.s["fuel"]), "fuel_flow_rate": f("flow"),
                "flow_rate_to_W": f("toW"), "heat_output_sh": f("maxS"), "heat_output_dhw": f("maxW"), "standby_power": f("standby"),
                "pump_power": f("pump"), "cyl_volume": f("Kc", self.dts / 4200.), "cyl_loss": f("Hl")}

    def load_thermostat_dict(self, subgroup={}):
        cdf = lambda v: np.array([(i + 1) / len(v) for i in range(len(v))])
        return {"home_temperatures_cdf": cdf(self.sh), "home_temperatures_values": np.array(self.sh, dtype=float),
                "water_temperatures_cdf": cdf(self.hw), "water_temperatures_values": np.array(self.hw, dtype=float),
                "emitter_setpoints": float(self.em), "deadband": dict(self.band)}

    def of(self, u):
        """What the household with the number u gets."""
        i = next(k for k, c in enumerate(self.cdf) if u < c)
        r = {k: v[i] for k, v in self.b.items()}
        r.update({k: v[i] for k, v in self.s.items()})
        inv = lambda v: v[int(u * len(v))]
        r.update(sh=inv(self.sh) * U, hw=inv(self.hw) * U, em=self.em * U)
        return r

    def bandU(self):
        return {"sh": int(self.band["space_heating"] * U), "hw": int(self.band["hot_water"] * U), "em": int(self.band["emitter"] * U)}


TH = (("hw", "hot_water"), ("sh", "space_heating"), ("em", "emitter"))
TG = (("dhw", "dhw"), ("sh", "space_heating"), ("em", "emitter"))
TK = (("b", "building"), ("i", "interior"), ("e", "emitter"), ("c", "cylinder"))


def temps(enc, d, n):
    r = {k: enc.arr(np.broadcast_to(d[kk], (n,)), n) for k, kk in TK}
    r["w"] = enc.arr(np.broadcast_to(d["cold_water"], (n,)), n)
    return [{k: r[k][h] for k in r} for h in range(n)]


def per(d, n, pairs, f):
    r = {k: f(d[kk], n) for k, kk in pairs}
    return [{k: r[k][h] for k in r} for h in range(n)]


CT = (("heater", "heater_on"), ("water", "heat_water_on"), ("space", "space_heating_on"))


def nanarr(vals):
    return np.array([np.nan if v is None else v for v in vals], dtype=float)


def enc_ext(vals, n):
    return [NAN if v is None else int(v * U) for v in vals] if vals is not None else [NAN] * n


def observe_five(sim, n, t, e0):
    enc = Enc()
    e = dict(e0)
    e["T"] = temps(enc, sim.get_temperatures(), n)
    e["th"] = per(sim.get_thermostat_states(), n, TH, bools)
    e["tg"] = per(sim.get_target_temperatures(), n, TG, enc.arr)
    e["ctl"] = per(sim.get_controls(), n, CT, bools)
    e["hd"] = per(sim.heatdemand_sim.get_heat_demand(), n, (("dhw", "dhw"), ("sh", "space_heating")), enc.arr)
    e["ho"] = per(sim.get_heat_outputs(), n, (("dhw", "dhw"), ("sh", "space_heating"), ("total", "total")), enc.arr)
    e["gd"] = enc.arr(sim.get_dhw_heat_demand(), n)
    e["gs"] = enc.arr(sim.get_sh_heat_demand(), n)
    e["gt"] = enc.arr(sim.get_total_heat_demand(), n)
    e["room"] = enc.arr(sim.get_room_temperature(), n)
    keep = enc.exact
    e["power"] = enc.arr(sim.get_power_demand(), n)
    e["energy"] = enc.arr(sim.get_energy_consumption(), n)
    e["exact"] = keep
    return e


def five(rec, rnd, name, steps, beh=None):
    dts = rnd.choice([60, 60, 600, 3600, 300, 30])
    n = 1 if beh else rnd.randint(1, 4)
    algo = "heat_max_emmiters" if beh else rnd.choice(["heat_max_emmiters", "room_estimation"])
    if beh:
        data = Data(rnd, dts, 1, dict(Kb=2, Ki=2, Ke=1, Kc=2, Hob=2, Hbi=2, Hs=1, Hv=0, Hem=1, Hl=0, maxS=32, maxW=16, combi=False, mult=0))
        data.b.update(Hob=[1], Hbi=[1])
        data.sh, data.hw, data.em, data.band = [20], [50], 50, {"space_heating": 1, "hot_water": 5, "emitter": 5}
    else:
        data = Data(rnd, dts)
        if algo == "heat_max_emmiters" and rnd.random() < .2:
            data.b["Hbi"] = [rnd.choice([1, 3, 5]) for _ in data.b["Hbi"]]
    u = [rnd.randrange(8) / 8 for _ in range(n)]
    out0 = rnd.choice([-5, 0, 4, 10, 20])
    with Vector(u) as v:
        sim = None
        try:
            sim = FiveModulesHeatingSimulator(n, out0, heatdemand_algo=algo, data=data, step_size=dt.timedelta(seconds=dts))
        except Exception:
            pass
    if v.other:      # other draws than those scripted: let every household have the same kind of building and system
        data = Data(rnd, dts, 1)
        u = [0.] * n
    cfg = dict(kind="five", nh=n, algo=algo, hh=[data.of(x) for x in u], band=data.bandU(), out0=out0 * U, any_start=bool(v.other))
    with rec.trace(name, **cfg) as t:
        if sim is None or v.other:
            with Vector(u):
                sim = FiveModulesHeatingSimulator(n, out0, heatdemand_algo=algo, data=data, step_size=dt.timedelta(seconds=dts))
        if v.other:
            hh = []
            for h in range(n):
                x = data.of(0.)
                x.update({k: int(np.asarray(sim.get_target_temperatures()[kk])[h] * U) for k, kk in (("hw", "dhw"), ("sh", "space_heating"), ("em", "emitter"))})
                hh.append(x)
            t.cfg["hh"] = hh
        if beh is None and not v.other and rnd.random() < .25:       # heated by another system: its boilers and cylinders count
            data2 = Data(rnd, dts)
            with Vector(u) as v2:
                new = HeatingSystem(n, data=data2)
            if v2.other:
                data2 = Data(rnd, dts, 1)
                new = HeatingSystem(n, data=data2)
            sim.set_external_heating_system(new)
            for x, y in zip(t.cfg["hh"], u):
                x.update({k: z for k, z in data2.of(0. if v2.other else y).items() if k in ("Kc", "Hl", "combi")})
        t.add("ready5", **observe_five(sim, n, t, {}))
        out = out0
        use = {k: rnd.random() < p for k, p in (("xt", .5), ("x", .4), ("dict", .3), ("xw", .4), ("xs", .4), ("xc", .4))}
        for s in range(steps):
            e = {}
            maybe = lambda lo, hi, p=.6: [rnd.choice([rnd.randint(lo, hi)] * 3 + [rnd.randint(lo * 2, hi * 2) / 2]) if rnd.random() < p else None for _ in range(n)]
            if beh:
                b = beh["steps"][s]
                val = lambda k: None if b[k] == -999999 else b[k] / 16
                dhw, out, irr = [b["dhw"]], b["o"] / 16, 0
                occ = lig = app = [0]
                xt = {"sh": [val("xt")]} if val("xt") is not None or rnd.random() < .5 else None
                x = [val("x")] if val("x") is not None or rnd.random() < .3 else None
                xs = [val("xs")] if val("xs") is not None or rnd.random() < .3 else None
                xw = [val("xw")] if val("xw") is not None or rnd.random() < .3 else None
                xc = [val("xc")] if val("xc") is not None or rnd.random() < .3 else None
                xd, arr_t = None, rnd.random() < .5
            else:
                dhw = [rnd.choice([0, 0, 1, 2, 6]) for _ in range(n)]
                out = rnd.choice([out, out, out + rnd.randint(-3, 3)])
                irr = rnd.choice([0, 0, 10, 100])
                occ, lig, app = ([rnd.choice([0, 10, 60]) for _ in range(n)] for _ in range(3))
                on = lambda k: use[k] and rnd.random() < .6
                xt = {k: maybe(*r) for k, r in (("sh", (15, 24)), ("dhw", (40, 60)), ("em", (35, 55))) if k == "sh" or rnd.random() < .3} if on("xt") else None
                arr_t = rnd.random() < .5
                x = maybe(0, 300) if on("x") else None
                xd = {k: maybe(0, 300) for k in ("sh", "dhw") if rnd.random() < .7} if x is None and on("dict") else None
                xs = maybe(0, 300) if on("xs") else None
                xw = maybe(0, 300) if on("xw") else None
                xc = maybe(40, 60) if on("xc") else None
            kw = {}
            if xt is not None:
                if set(xt) == {"sh"} and arr_t:
                    kw["external_target_temperature"] = nanarr(xt["sh"])
                else:
                    kw["external_target_temperature"] = {dict(TG)[k]: nanarr(a) for k, a in xt.items()}
            if x is not None:
                kw["external_heat_outputs"] = nanarr(x)
            if xd is not None:
                kw["external_heat_outputs"] = {{"sh": "space_heating", "dhw": "dhw"}[k]: nanarr(a) for k, a in xd.items()}
            if xs is not None:
                kw["external_sh_outputs"] = nanarr(xs)
            if xw is not None:
                kw["external_dhw_outputs"] = nanarr(xw)
            if xc is not None:
                kw["external_cylinder_temperature"] = nanarr(xc)
            outv = np.full(n, float(out)) if rnd.random() < .3 else float(out)
            args = [outv, float(irr), np.array(dhw, dtype=float), np.array(occ, dtype=float), np.array(lig, dtype=float), np.array(app, dtype=float)]
            before = copy.deepcopy((args, kw))
            sim.step(*args, **kw)
            e = dict(out=int(out * U), irr=irr, dhw=dhw, gains=[(a + b_ + c) for a, b_, c in zip(occ, lig, app)],
                     xt={k: enc_ext((xt or {}).get(k), n) for k in ("sh", "dhw", "em")}, x=enc_ext(x, n),
                     xds=enc_ext((xd or {}).get("sh"), n), xdw=enc_ext((xd or {}).get("dhw"), n), xs=enc_ext(xs, n), xw=enc_ext(xw, n),
                     xc=enc_ext(xc, n), untouched=same(before, (args, kw)))
            t.add("step5", **observe_five(sim, n, t, e))


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)) and np.shape(a) == np.shape(b)


def thermo(rec, rnd, name, steps):
    n = rnd.randint(1, 4)
    data = Data(rnd, 60)
    with rec.trace(name, kind="thermo", nh=n, band=data.bandU()) as t:
        near = lambda target, band: float(target) + rnd.choice([-band, band, 0, -band - 1 / U, -band + 1 / U, band - 1 / U, band + 1 / U, -3 * band, 3 * band])
        bands = {"hw": data.band["hot_water"], "sh": data.band["space_heating"], "em": data.band["emitter"]}

        def T(tg):
            g = {"hw": tg["dhw"], "sh": tg["space_heating"], "em": tg["emitter"]}
            d = {k: np.array([near(g[k][h], bands[k]) for h in range(n)]) for k in g}
            return {"cylinder": d["hw"], "interior": d["sh"], "emitter": d["em"]}
        tg0 = {"dhw": [50] * n, "space_heating": [20] * n, "emitter": [data.em] * n}
        first = T(tg0) if rnd.random() < .6 else None
        sim = Thermostats(n, data=data, **({"initial_temperatures": first} if first else {}))
        enc = Enc()

        def obs():
            return dict(th=per(sim.get_thermostat_states(), n, TH, bools), tg=per(sim.get_target_temperatures(), n, TG, enc.arr))

        def tt(d):
            r = [enc.arr(d[k], n) for k in ("cylinder", "interior", "emitter")]
            return [{"hw": r[0][h], "sh": r[1][h], "em": r[2][h]} for h in range(n)]
        t.add("readyT", given=first is not None, temp=tt(first) if first else [], **obs())
        for s in range(steps):
            xt, kw = None, {}
            if rnd.random() < .3:
                mk = lambda lo, hi: [rnd.randint(lo, hi) for _ in range(n)]
                xt = {"sh": mk(17, 23)}
                if rnd.random() < .5:
                    if rnd.random() < .5:
                        xt["dhw"] = mk(45, 60)
                    if rnd.random() < .5:
                        xt["em"] = mk(35, 55)
                    kw["target_temperatures"] = {dict(TG)[k]: np.array(a, dtype=float) for k, a in xt.items()}
                else:
                    kw["target_temperatures"] = np.array(xt["sh"], dtype=rnd.choice([float, int]))
            cur = {k: np.asarray(v) for k, v in sim.get_target_temperatures().items()}
            for k, a in (xt or {}).items():
                cur[dict(TG)[k]] = np.array(a)
            temp = T(cur)
            sim.step(temp, **kw)
            t.add("stepT", temp=tt(temp), xt={k: enc_ext((xt or {}).get(k), n) for k in ("sh", "dhw", "em")}, **obs())


def controls(rec, rnd, name, steps):
    n = rnd.randint(1, 5)
    combi = [rnd.random() < .4 for _ in range(n)]
    default = rnd.random() < .2
    with rec.trace(name, kind="controls", nh=n, combi=[False] * n if default else combi) as t:
        sim = SystemControls(n, **({} if default else {"is_combi_boiler": np.array(combi)}))
        t.add("readyC", ctl=per(sim.get_controls(), n, CT, bools))
        for s in range(steps):
            dhw = [rnd.choice([0, 0, 1, 5]) for _ in range(n)]
            th = [{k: rnd.random() < .5 for k in ("hw", "sh", "em")} for _ in range(n)]
            ext = [rnd.random() < .4 for _ in range(n)] if rnd.random() < .5 else None
            sim.step(np.array(dhw, dtype=float), {kk: np.array([x[k] for x in th]) for k, kk in TH},
                     **({} if ext is None else {"has_external_cylinder": np.array(ext)}))
            t.add("stepC", dhw=dhw, th=th, ext=ext or [False] * n, ctl=per(sim.get_controls(), n, CT, bools))


def system(rec, rnd, name, steps):
    n = rnd.randint(1, 5)
    data = Data(rnd, 60)
    u = [rnd.randrange(8) / 8 for _ in range(n)]
    mk = lambda: ({kk: np.array([rnd.random() < .7 for _ in range(n)]) for _, kk in CT},
                  {k: np.array([float(rnd.choice([-50, 0, 16, 64, 100, 128, 200, 256, 300, 1000, 2000])) for _ in range(n)]) for k in ("dhw", "space_heating")})
    start = mk() if rnd.random() < .4 else None
    kw = dict(initial_controls=start[0], initial_heat_demand=start[1]) if start else {}
    with Vector(u) as v:
        try:
            sim = HeatingSystem(n, data=data, **copy.deepcopy(kw))
        except Exception:
            sim = None
    if v.other:
        data, u, sim = Data(rnd, 60, 1), [0.] * n, None
    with rec.trace(name, kind="system", nh=n, hh=[data.of(x) for x in u]) as t:
        if sim is None:
            sim = HeatingSystem(n, data=data, **copy.deepcopy(kw))

        def obs(c, d):
            enc = Enc()
            ev = dict(ctl=per(c, n, CT, bools), hd=per(d, n, (("dhw", "dhw"), ("sh", "space_heating")), enc.arr))
            gets = [("ho", lambda: per(sim.get_heat_outputs(), n, (("dhw", "dhw"), ("sh", "space_heating"), ("total", "total")), enc.arr)),
                    ("power", lambda: enc.arr(sim.get_power_demand(), n)), ("energy", lambda: enc.arr(sim.get_energy_consumption(), n)),
                    ("pumps", lambda: enc.arr(sim.get_pumps_power_consumptions(), n))]

            def fuels():
                f = sim.get_fuel_consumptions()
                g = enc.arr(np.asarray(f["Mainsgas"]) * 3600, n, 4096) if "Mainsgas" in f else [0] * n
                el = enc.arr(f["Electricity"], n, 4096) if "Electricity" in f else [0] * n
                return {"gas": g, "el": el}
            gets.append(("fuel", fuels))
            rnd.shuffle(gets)
            for k, f in gets:
                ev[k] = f()
            return ev
        off = ({kk: np.zeros(n, dtype=bool) for _, kk in CT}, {k: np.zeros(n) for k in ("dhw", "space_heating")})
        t.add("readyS", **obs(*(start or off)))
        for s in range(steps):
            c, d = mk()
            sim.step(copy.deepcopy(c), copy.deepcopy(d))
            t.add("stepS", **obs(c, d))


def net(rec, rnd, name, steps):
    n = rnd.randint(1, 4)
    dts = rnd.choice([60, 600, 3600, 1, 90])
    data = Data(rnd, dts)
    algo = rnd.choice(["heat_max_emmiters", "room_estimation"])
    u = [rnd.randrange(8) / 8 for _ in range(n)]
    out0 = rnd.choice([-5, 0, 10])
    target = [rnd.randint(18, 23) for _ in range(n)]
    band = rnd.choice([None, {"space_heating": 2, "hot_water": 4, "emitter": 3}])

    def build():
        hs = HeatingSystem(n, data=data)
        sim = BuildingThermalDynamics(n, hs, out0, step_size=dt.timedelta(seconds=dts), target_temperatures=np.array(target, dtype=float), data=data)
        dem = HeatDemand(n, hs, sim, step_size=dt.timedelta(seconds=dts), heatdemand_algo=algo, **({"deadbands": band} if band else {}))
        return sim, dem
    with Vector(u) as v:
        try:
            both = build()
        except Exception:
            both = None
    if v.other:
        data, u, both = Data(rnd, dts, 1), [0.] * n, None
    b = band or {"space_heating": 1, "hot_water": 5, "emitter": 5}
    with rec.trace(name, kind="net", nh=n, algo=algo, hh=[data.of(x) for x in u], out0=out0 * U, target=[x * U for x in target],
                   band={"sh": b["space_heating"] * U, "hw": b["hot_water"] * U, "em": b["emitter"] * U}) as t:
        sim, dem = both or build()
        enc = Enc()
        T = temps(enc, sim.get_temperatures(), n)
        t.add("readyN", T=T, exact=enc.exact)
        still = rnd.random() < .25           # a network in equilibrium
        if still:
            out0 = rnd.randint(5, 25)
            for _, kk in TK:
                sim.temperatures[kk] = np.full(n, float(out0))
        elif rnd.random() < .5:
            for _, kk in TK:
                sim.temperatures[kk] = np.array([float(rnd.randint(-5, 70)) for _ in range(n)])
        T = temps(enc, sim.get_temperatures(), n)
        enc = Enc()
        t.add("setN", T=temps(enc, sim.get_temperatures(), n), exact=enc.exact)
        out = out0
        for s in range(steps):
            z = lambda *v: [0 if still else rnd.choice(v) for _ in range(n)]
            dhw, occ, lig, app, hs_, hw_ = z(0, 1, 2, 6), z(0, 10, 60), z(0, 20), z(0, 30, 100), z(0, 100, 256), z(0, 50, 128)
            irr = 0 if still else rnd.choice([0, 10, 100])
            out = out if still else rnd.choice([out, out + rnd.randint(-4, 4)])
            tg = {"dhw": [rnd.randint(45, 60) for _ in range(n)], "sh": [rnd.randint(17, 23) for _ in range(n)], "em": [rnd.randint(40, 55) for _ in range(n)]}
            f = lambda a: np.array(a, dtype=float)
            dem.step(sim.get_temperatures(), {"dhw": f(tg["dhw"]), "space_heating": f(tg["sh"]), "emitter": f(tg["em"])}, f(dhw), float(out))
            sim.step(float(out), float(irr), f(dhw), f(occ), f(lig), f(app), {"space_heating": f(hs_), "dhw": f(hw_)})
            enc = Enc()
            t.add("stepN", out=int(out) * U, irr=irr, dhw=dhw, gains=[a + b_ + c for a, b_, c in zip(occ, lig, app)],
                  sh=[x * U for x in hs_], hw=[x * U for x in hw_],
                  tg=[{k: tg[k][h] * U for k in tg} for h in range(n)],
                  hd=per(dem.get_heat_demand(), n, (("dhw", "dhw"), ("sh", "space_heating")), enc.arr),
                  T=temps(enc, sim.get_temperatures(), n), exact=enc.exact)


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    for i, b in enumerate(inp.get("beh", [])):
        five(rec, rnd, "beh%d" % i, len(b["steps"]), beh=b)
    for i in range(inp.get("n", 0)):
        five(rec, rnd, "five%d" % i, rnd.choice([3, 12, 40]))
        for f in (thermo, controls, system, net):
            if f.__name__ in inp.get("kinds", ("thermo", "controls", "system", "net")):
                f(rec, rnd, "%s%d" % (f.__name__, i), rnd.choice([2, 10, 30]))


if __name__ == "__main__":
    main(drive)
