"""The load simulator with real data (except for the climate records, which are made up): every part's step is watched."""
import datetime
import inspect
import random
import warnings
import zlib
import numpy as np
from vf import main, qr
from demod.simulators.load_simulators import LoadSimulator
from demod.datasets.Germany.loader import GermanDataHerus
from demod.datasets.CREST.loader import Crest

warnings.simplefilter("ignore")


class Records(GermanDataHerus):
    """Made-up records of the weather around any start."""
    def load_historical_climate_data(self, start_datetime):
        t0 = np.datetime64(start_datetime.replace(minute=0, second=0, microsecond=0)) - np.timedelta64(2, "h")
        n = 30
        return {"datetime": t0 + np.arange(n) * np.timedelta64(60, "m"),
                "outside_temperature": 7.5 + np.sin(np.arange(n) * 1.7) * 9, "irradiance": np.abs(np.cos(np.arange(n) * .9)) * 400}


class FourStates(Records):
    """No sparse matrices: the load simulator falls back on the four-states model."""
    def load_population_subgroups(self, *a):
        return [{"n_residents": i} for i in (1, 2, 3)], np.array([.5, .25, .25]), 100

    def load_activity_probability_profiles(self, sg):
        n = sg["n_residents"]
        return super().load_activity_probability_profiles(dict(
            {k: v for k, v in sg.items() if k != "n_residents"}, n_residents=min(n, 2), household_type=1 if n == 1 else 2))

    def load_sparse_tpm(self, *a):
        raise NotImplementedError()

    def load_tpm(self, sg):
        n = sg["n_residents"]
        s = (n + 1) ** 2
        lab = np.array([10 * i + j for i in range(n + 1) for j in range(n + 1)])
        return np.full((144, s, s), 1. / s), lab, np.full(s, 1. / s)


class CrestWeather(GermanDataHerus):
    """No records: the load simulator falls back on the simulated climate."""
    def load_historical_climate_data(self, start_datetime):
        raise NotImplementedError()

    def load_geographic_data(self):
        return Crest().load_geographic_data()

    def load_clearness_tpms(self):
        return Crest().load_clearness_tpms()

    def load_temperatures_arma(self):
        return Crest().load_temperatures_arma()


KINDS = {"records": Records, "four": FourStates, "crest": CrestWeather}


def digest(v):
    if v is None:
        return 0
    if isinstance(v, dict):
        s = 7
        for k in sorted(v):
            s = zlib.crc32(("%s:%d;" % (k, digest(v[k]))).encode(), s)
        return 1 + (s >> 2)
    a = np.asarray(v, float) + 0.0
    return 1 + (zlib.crc32(np.ascontiguousarray(a).tobytes(), a.size) >> 2)


def watch(part, count, key, seen):
    real = part.step
    sig = inspect.signature(real)

    def step(*a, **kw):
        b = sig.bind(*a, **kw)
        given = {}
        for k, v in b.arguments.items():
            given.update(v) if sig.parameters[k].kind == inspect.Parameter.VAR_KEYWORD else given.__setitem__(k, v)
        count[key] += 1
        seen[key] = [(k, digest(v)) for k, v in given.items()]
        return real(*a, **kw)
    part.step = step


HEAT = {"temp": "outside_temperature", "irr": "irradiance", "dhw": "dhw_heating_demand", "g_occ": "occupancy_thermal_gains",
        "g_light": "lighting_thermal_gains", "g_appl": "appliances_thermal_gains", "target": "external_target_temperature",
        "heat": "external_heat_outputs", "dhw_out": "external_dhw_outputs", "sh_out": "external_sh_outputs",
        "cyl": "external_cylinder_temperature"}
EXT = {"irr": "external_irradiance", "temp": "external_outside_temperature", "target": "external_target_temperature",
       "heat": "external_heat_outputs", "dhw_out": "external_dhw_outputs", "sh_out": "external_sh_outputs",
       "cyl": "external_cylinder_temperature"}


def run(rec, rnd, name, kind, climate, heating, plan, seed):
    np.random.seed(seed % (2 ** 31))
    nh = rnd.choice([1, 2, 3, 7, 12])
    start = datetime.datetime(2014, rnd.randint(1, 12), rnd.randint(1, 28), rnd.choice([0, 3, 4, 5, 12, 23]),
                              rnd.choice([0, 0, 10, 34, 59]))
    if plan and rnd.random() < .6:
        start = start.replace(hour=4, minute=0)
    with rec.trace(name, kind=kind, nh=nh, climate=climate, heating=heating, start=str(start)) as t:
        sim = LoadSimulator(nh, start, include_heating=heating, include_climate=climate, data=KINDS[kind]())
        zero = {"climate": 0, "activity": 0, "appliances": 0, "light": 0, "heating": 0}
        made, seen = dict(zero), {}
        parts = {"activity": sim.activity_simulator, "appliances": sim.appliance_simulator, "light": sim.light_sim}
        if climate:
            parts["climate"] = sim.climate
        if heating:
            parts["heating"] = sim.heating
        for k, p in parts.items():
            watch(p, made, k, seen)

        def minutes(p):
            c = getattr(p, "current_time", None)
            return -1 if c is None else int((c - start).total_seconds() / 60)

        def obs():
            w = lambda a: [qr(x, 10) for x in np.asarray(a)]
            o = dict(clock=minutes(sim), nstep=int(sim.current_time_step), t_appl=minutes(sim.appliance_simulator),
                     t_clim=minutes(sim.climate) if climate else -1, t_act=minutes(sim.activity_simulator),
                     power=w(sim.get_power_demand()), p_appl=w(sim.appliance_simulator.get_power_demand()),
                     p_light=w(sim.light_sim.get_power_demand()), p_heat=w(sim.heating.get_power_demand()) if heating else [])
            gs = ["get_total_heat_demand", "get_dhw_heat_demand", "get_sh_heat_demand", "get_temperatures"] if heating else []
            o["heatview"] = [digest(getattr(sim, g)()) for g in gs]
            o["heatown"] = [digest(getattr(sim.heating, g)()) for g in gs]
            return o

        def prod():
            a, ac, li, c = sim.appliance_simulator, sim.activity_simulator, sim.light_sim, sim.climate
            return dict(occ=digest(ac.get_active_occupancy()), g_occ=digest(ac.get_thermal_gains()), dhw=digest(a.get_dhw_heating_demand()),
                        g_appl=digest(a.get_thermal_gains()), g_light=digest(li.get_thermal_gains()),
                        irr=digest(c.get_irradiance()) if climate else 0, temp=digest(c.get_outside_temperature()) if climate else 0)

        def value(k):
            if k == "irr":
                return rnd.choice([0, 0., 120.5, 900])
            if k == "temp":
                return rnd.choice([0, 0.0, -8.25, 21.5])
            if k == "target":
                x = np.full(nh, rnd.choice([16., 25.]))
                return rnd.choice([x, {"space_heating": x}, {"dhw": x + 30}])
            if k == "heat":
                return {"dhw": np.full(nh, 500.), "space_heating": np.full(nh, 2000.)} if rnd.random() < .5 else np.full(nh, 3000.)
            return np.array([rnd.choice([np.nan, 45., 1000.]) for _ in range(nh)]) if k != "cyl" else np.array([rnd.choice([np.nan, 51.]) for _ in range(nh)])

        def one(keys):
            kw = {EXT[k]: value(k) for k in keys}
            ext = {k: digest(kw.get(EXT[k])) for k in EXT}
            made.update(zero)
            seen.clear()
            try:
                sim.step(**kw)
            except ValueError:
                if climate or {"irr", "temp"} <= set(keys):
                    raise
                t.add("refused", made=dict(made), ext=ext, **obs())
                return
            s = {k: dict(v) for k, v in seen.items()}
            ap = seen.get("appliances") or [("", 0)]
            lo = dict(seen.get("light", []))
            h = s.get("heating", {})
            t.add("step", made=dict(made), ext=ext, prod=prod(),
                  seen={"appl_occ": ap[0][1], "light_occ": lo.get("active_occupancy", 0), "light_irr": lo.get("irradiance", 0)},
                  heat={k: h.get(v, 0) for k, v in HEAT.items()}, **obs())
        t.add("ready", **obs())
        for keys, n in plan:
            one(keys)
            for _ in range(n):
                one([] if climate else ["irr", "temp"])


def body(rec, inp, tier, seed):
    rnd = random.Random(seed)
    for i, b in enumerate(inp.get("beh", [])):
        c = b["conf"]
        run(rec, rnd, "plan%d" % i, rnd.choice(["records", "records", "crest", "four"]) if c["climate"] else rnd.choice(["records", "four"]),
            c["climate"], c["heating"], [([k for k in s["ext"] if s["ext"][k]], s["n"]) for s in b["steps"]], seed + i)
    for i in range(inp.get("free", 0)):
        climate, heating = rnd.random() < .7, rnd.random() < .8
        plan = []
        for _ in range(rnd.randint(1, 8)):
            keys = [k for k in EXT if rnd.random() < .25]
            if not climate and rnd.random() < .7:
                keys = sorted(set(keys) | {"irr", "temp"})
            plan.append((keys, rnd.choice([0, 1, 5, 13])))
        run(rec, rnd, "free%d" % i, rnd.choice(sorted(KINDS)), climate, heating, plan, seed + 7 * i)


if __name__ == "__main__":
    main(body)
