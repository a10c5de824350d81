"""Climate: windows of made-up records, the simulators that read them, and the generated climate."""
import calendar
import datetime as dt
import os
import random
import shutil
import tempfile
import warnings
import zlib
import numpy as np
import demod.datasets.base_loader as B
from same import Same
from vf import main, q, qr, WRONG
from demod.datasets.OpenPowerSystems.loader import OpenPowerSystemClimate
from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
from demod.simulators.weather_simulators import (
    CrestClimateSimulator, CrestIrradianceSimulator, RealClimate, RealInterpolatedClimate)

warnings.simplefilter("ignore")
EPOCH = dt.datetime(1970, 1, 1)
HALF = dt.timedelta(seconds=30)


class Store:
    """A scratch folder for datasets."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_climate_")
        self.saved, B.DATASET_PATH = B.DATASET_PATH, self.dir
        for d in ("Made", "OpenPowerSystems", "RenewablesNinja"):
            os.makedirs(os.path.join(self.dir, d, "raw_data"))
            os.makedirs(os.path.join(self.dir, d, "parsed_data"))
        return self

    def __exit__(self, *a):
        B.DATASET_PATH = self.saved
        shutil.rmtree(self.dir)


class Made(B.ClimateLoader):
    DATASET_NAME = "Made"
    country = "nowhere"

    def __init__(self, records, step):
        self.records, self.step_size = records, step
        super().__init__()

    def _parse_historical_climate_data(self):
        return {k: v.copy() for k, v in self.records.items()}


def utc(t, base):
    """Half minutes since base, in UTC (a naive time is UTC)."""
    t = t if t.tzinfo is None else t.astimezone(dt.timezone.utc).replace(tzinfo=None)
    return q((t - base) / HALF)


def records(rnd, base, rt, vals, irr, third, unit, key):
    r = {"datetime": np.array([base + t * HALF for t in rt]).astype("datetime64[%s]" % unit),
         "outside_temperature": np.array(vals, float), key: np.array(irr, float)}
    if third:
        r["snow"] = np.array([v + 1 for v in vals], float)
    return r


def csvs(store, rnd, base, rt, vals, irr):
    """The same records in the two file formats that are parsed."""
    d = os.path.join(store.dir, "OpenPowerSystems", "raw_data", "weather_data.csv")
    f = (lambda t: t.strftime("%Y-%m-%dT%H:%M:%S") + "Z")
    with open(d, "w") as o:
        o.write("utc_timestamp,FR_temperature,DE_temperature,DE_radiation_direct_horizontal,DE_radiation_diffuse_horizontal\n")
        for t, v, i in zip(rt, vals, irr):
            o.write("%s,%s,%s,%s,%s\n" % (f(base + t * HALF), v + 77, float(v), i // 2, i - i // 2))
    d = os.path.join(store.dir, "RenewablesNinja", "raw_data", "DE_population.csv")
    with open(d, "w") as o:
        o.write("# a\n# b\ntime,precipitation,temperature,irradiance_surface,irradiance_toa,snowfall,snow_mass,cloud_cover,air_density\n")
        for t, v, i in zip(rt, vals, irr):
            o.write("%s,0,%s,%s,%s,0,0,0.5,1.2\n" % ((base + t * HALF).strftime("%Y-%m-%d %H:%M"), float(v), i // 2, i - i // 2))


def start_at(base, T, zone):
    t = base + T * HALF
    if zone is None:
        return t
    return t.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(minutes=zone)))


def window(t, loader, base, T, zone, key):
    try:
        r = loader.load_historical_climate_data(start_at(base, T, zone))
    except ValueError:
        t.add("window", T=T, refused=True, times=[], temp=[], irr=[], third=[], has=False)
        return
    times = [utc(x, base) for x in r["datetime"].astype("datetime64[us]").astype(dt.datetime)]
    t.add("window", T=T, refused=False, times=times, temp=[q(x) for x in r["outside_temperature"]], irr=[q(x) for x in r[key]],
          third=[q(x) for x in r.get("snow", [])], has="snow" in r)


def recorded(rec, rnd, name, beh=None):
    with Store() as store:
        base = dt.datetime(*rnd.choice([(2014, 1, 1), (2012, 2, 28, 22), (1980, 1, 1), (2015, 12, 31, 12), (2019, 3, 31), (1969, 12, 31, 20)]))
        if beh:
            sp, n = beh["sp"], beh["n"]
            rt = [i * sp for i in range(n)]
        else:
            sp = rnd.choice([1, 2, 10, 20, 60, 64, 120])
            n = rnd.randint(1, 12)
            rt = [i * sp for i in range(n)]
            if rnd.random() < .2 and n > 3:          # missing records
                rt = sorted(rnd.sample(rt, n - rnd.randint(1, 2)))
                rt = [x - rt[0] for x in rt]
        uniform = all(b - a == sp for a, b in zip(rt, rt[1:]))
        n = len(rt)
        vals = [rnd.randint(-20, 30) for _ in rt]
        irr = [rnd.randint(0, 500) * 2 for _ in rt]
        key = rnd.choice(["irradiance", "irradiance", "radiation_global"])
        kind = rnd.choice(["made", "made", "ops", "ninja"]) if not beh and sp % 2 == 0 else "made"
        if kind == "made":
            units = ["s", "us", "ms"] + (["m"] if sp % 2 == 0 else [])
            mk = lambda: Made(records(rnd, base, rt, vals, irr, rnd.random() < .5, rnd.choice(units), key), sp * HALF)
        else:
            key = "irradiance"
            csvs(store, rnd, base, rt, vals, irr)

            def mk():
                x = OpenPowerSystemClimate("germany") if kind == "ops" else NinjaRenewablesClimate("germany")
                x.step_size = sp * HALF
                return x
        cfg = dict(rt=rt, temp=vals, irr=irr, sp=sp, uniform=uniform, kind=kind, ref=[], tref=[])
        loader = mk()
        with rec.trace(name + "w", **cfg) as t:
            last = rt[-1]
            asks = [beh["start"]] if beh else [rnd.choice([0, last, rnd.randint(-3, last + 3), last + 1, -1]) for _ in range(3)]
            for T in asks:
                if rnd.random() < .3:
                    loader = mk()
                window(t, loader, base, T, rnd.choice([None, 0, 60, -300, 330]) if not beh else beh["zone"] or None, key)
        # simulators
        for sim_kind in (["real", "interp"] if beh else [rnd.choice(["real", "interp", "interp"])]):
            T = beh["start"] if beh else rnd.choice([0, rnd.randint(0, max(rt[-1], 0)), rt[-1], rt[-1] + 1, -1])
            zone = (beh["zone"] or None) if beh else rnd.choice([None, None, 0, 60, -300, 330, -1])
            if sim_kind == "real" and not uniform:
                continue
            step = sp if sim_kind == "real" else rnd.choice([1, 2, 3, 10, 20, sp])
            with rec.trace("%s%s" % (name, sim_kind), **dict(cfg, step=step, start=T)) as t:
                s = start_at(base, T, zone)
                kw = {} if sim_kind == "real" else {"step_size": step * HALF}
                try:
                    sim = (RealClimate if sim_kind == "real" else RealInterpolatedClimate)(data=loader, start_datetime=s, **kw)
                except ValueError:
                    t.add(sim_kind, k=0, refused=True, now=0, temp=0, irr=0)
                    continue

                def see(k):
                    if sim_kind == "real":
                        t.add("real", k=k, refused=False, now=utc(sim.current_time, base), temp=q(sim.get_outside_temperature()), irr=q(sim.get_irradiance()))
                    else:
                        g = [lambda: qr(sim.get_outside_temperature(), 1000), lambda: qr(getattr(sim, "get_" + key)(), 1000)]
                        a, b = g[0](), g[1]()
                        t.add("interp", k=k, refused=False, now=utc(sim.current_time, base), temp=a, irr=b)
                see(0)
                for k in range(1, (beh["steps"] if beh else rnd.randint(0, 30)) + 1):
                    over = T + k * step > rt[-1]
                    if sim_kind == "real" and T + k * step >= rt[-1] + sp:
                        break
                    try:
                        sim.step()
                    except ValueError:
                        t.add(sim_kind, k=k, refused=True, now=0, temp=0, irr=0)
                        break
                    if over and sim_kind == "interp":
                        t.add("interp", k=k, refused=False, now=0, temp=0, irr=0)
                        break
                    see(k)


class Sky:
    """Clearness goes round a circle: nothing is left to chance."""

    def __init__(self, n, lat, summer):
        self.n, self.lat, self.summer = n, lat, summer

    def load_geographic_data(self):
        return {"longitude": 6.5, "latitude": self.lat, "meridian": 15., "use_daylight_saving_time": self.summer, "country": "x"}

    def load_clearness_tpms(self):
        return np.roll(np.eye(self.n), 1, axis=1), np.linspace(.99, .3, self.n), dt.timedelta(minutes=1)

    def load_temperatures_arma(self):
        return {"SD": 2.37, "AR": .81, "MA": .1, "T_mean": 9., "T_std": 6., "T_shift": 210.}


def dig(x):
    return zlib.crc32(("%.9f" % (float(np.asarray(x).reshape(())) + 0.0)).encode()) >> 1


def generated(rec, rnd, name, real, days=2):
    base = dt.datetime(2014, 1, 1) + dt.timedelta(days=rnd.choice([0, 30, 58, 85, 86, 120, 151, 303, 304, 363, 364, rnd.randint(0, 1500)]))
    sky = "CREST" if real else Sky(rnd.choice([1, 2, 7, 13]), rnd.choice([52., 46.5, 0.5]), rnd.random() < .5)
    zone = rnd.choice([None, None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=2))])
    off = rnd.choice([0, 0, 1, 240, 719, 1439, rnd.randint(0, 1439)])
    if not real:
        off = off or rnd.choice([0, 390, 1000])
    with rec.trace(name, rt=[], temp=[], irr=[], sp=1, uniform=True, kind="generated", ref=[], tref=[], real=real) as t:
        same = Same()
        if not real:
            same.z, same.u = [0], 64
            same.__enter__()
        try:
            mins = 1440 * days
            if not real:
                a = CrestIrradianceSimulator(sky, initial_clearness=.99, start_datetime=base.replace(tzinfo=zone))
                ref = []
                for i in range(mins):
                    ref.append(dig(a.get_irradiance()))
                    a.step()
                b = CrestClimateSimulator(sky, start_datetime=base.replace(tzinfo=zone), initial_clearness=.99)
                tref = []
                for i in range(mins):
                    tref.append(dig(b.get_outside_temperature()))
                    b.step()
                t.cfg["ref"], t.cfg["tref"] = ref, tref
            s = (base + dt.timedelta(minutes=off)).replace(tzinfo=zone)
            c = CrestClimateSimulator(sky, start_datetime=s, initial_clearness=.99)
            d = CrestIrradianceSimulator(sky, start_datetime=s, initial_clearness=.99)

            def see(k):
                ci, ct, di = c.get_irradiance(), c.get_outside_temperature(), d.get_irradiance()
                t.add("generated", m=q((c.current_time.replace(tzinfo=None) - base).total_seconds() / 60), want=off + k, irr=dig(ci), temp=dig(ct), alone=dig(di),
                      sane=[qr(ci, 10), qr(di, 10), qr(ct, 10)])
            see(0)
            last = min(mins - 1, off + rnd.choice([30, 1500, 1500]))
            wanted = {1438, 1439, 1440, 1441, 2879, off + 1, last} | {rnd.randint(off, last) for _ in range(60)}
            for m in range(off + 1, last + 1):
                c.step()
                d.step()
                if m in wanted:
                    see(m - off)
        finally:
            if same.on:
                same.__exit__()


def run(rec, inp, tier, seed):
    rnd = random.Random(seed)
    for i, b in enumerate(inp.get("beh", [])):
        recorded(rec, rnd, "beh%d" % i, b)
    for i in range(inp.get("n", 0)):
        recorded(rec, rnd, "rec%d" % i)
    for i in range(inp.get("gen", 0)):
        generated(rec, rnd, "gen%d" % i, rnd.random() < .2)


if __name__ == "__main__":
    main(run)
