"""Driver of C31: recordings, ownership tables, sheets and climate files that are made up, through the real loaders.

Each process copies the package to a scratch folder and puts the files where the loaders look for them; nothing is
downloaded: opening an address gives the file of that name shipped with the package, or fails.
"""
import datetime
import hashlib
import importlib.util
import json
import os
import random
import shutil
import sys
import tempfile
import urllib.request
import warnings

import numpy as np

from vf import main, q, qr, WRONG

warnings.simplefilter("ignore")
TYPES = ["Alarmclock", "Amplifier", "BeanToCupCoffeemaker", "CdPlayer", "Charger-Smartphone", "Coffeemaker", "Cookingstove", "DigitalTvReceiver",
         "Dishwasher", "DvdPlayer", "EthernetSwitch", "Freezer", "Iron", "Lamp", "LaundryDryer", "MicrowaveOven", "Monitor-CRT", "Monitor-TFT",
         "PC-Desktop", "PC-Laptop", "Playstation3", "Printer", "Projector", "Refrigerator", "Router", "Subwoofer", "Toaster", "TV-CRT", "TV-LCD",
         "VacuumCleaner", "VideoProjector", "Washingmachine", "WaterBoiler", "WaterKettle", "XmasLights"]
OTHER = ["Breadcutter", "SolarThermalSystem", "USBHub", "Multimediacenter"]
SELECTED = """dev_995BAC_2012.06.11 dev_B7E6F4_2012.02.03 dev_B7E6FA_2012.01.18 dev_B81D04_2012.05.23 dev_B82F81_2011.08.15 dev_11F01E_2011.12.10
dev_7297E3_2012.01.16 dev_B8121D_2012.02.01 dev_D31FFD_2012.06.11 dev_D3230E_2011.12.18 dev_D338C9_2012.05.16 Washingmachine_2011.11.30
dev_B7E43D_2012.01.24 dev_D337C2_2011.12.26 dev_995FCC_2012.01.21 dev_D32309_2011.12.25 dev_D32309_2012.01.08 Microwave_2011.12.28
Microwave_2011.12.30 Microwave_2012.01.02""".split()
# columns of the ownership table, as its header says
COLS = {2: "y2008", 3: "y2013", 4: "y2018", 13: "n1", 14: "n2", 15: "n3", 16: "n4", 17: "n5", 27: "r1", 28: "r2", 29: "r3", 30: "r4", 31: "r5",
        32: "r6", 33: "r7", 34: "r8", 47: "alone", 48: "man", 49: "woman", 52: "couple", 58: "lone1", 59: "lone2", 61: "pair1", 62: "pair2", 63: "pair3"}


class Scratch:
    def __init__(self):
        src = os.path.dirname(importlib.util.find_spec("demod").origin)
        self.top = tempfile.mkdtemp(prefix="tables_", dir=os.environ["HOME"])
        shutil.copytree(src, os.path.join(self.top, "demod"), ignore=shutil.ignore_patterns("__pycache__", "*.npz", "CREST"))
        shutil.copytree(os.path.join(src, "datasets", "CREST"), os.path.join(self.top, "demod", "datasets", "CREST"))
        sys.path.insert(0, self.top)
        self.data = os.path.join(self.top, "demod", "datasets")
        for n in ("GermanTOU", "Germany"):              # unpacked from the archives instead
            shutil.rmtree(os.path.join(self.data, n, "parsed_data"), ignore_errors=True)
            shutil.rmtree(os.path.join(self.data, n, "raw_data"), ignore_errors=True)
        self.shipped = os.path.join(src, "datasets")
        urllib.request.urlopen = self.urlopen
        import demod.datasets.Germany.loader as ld
        assert os.path.realpath(ld.__file__).startswith(os.path.realpath(self.top))

    def urlopen(self, url, *a, **k):
        n = os.path.basename(url if isinstance(url, str) else url.full_url)
        f = os.path.join(self.shipped, "GermanTOU", "parsed_data", n)
        if not os.path.isfile(f):
            raise OSError("no network: " + n)
        return open(f, "rb")

    def folder(self, *p):
        d = os.path.join(self.data, *p)
        os.makedirs(d, exist_ok=True)
        return d

    def forget(self, *names):
        """Nothing of these data sets is stored, as after clearing their parsed data."""
        for n in names:
            shutil.rmtree(os.path.join(self.data, n, "parsed_data"), ignore_errors=True)

    # recordings
    def recordings(self, files, dates):
        raw = self.folder("tracebase", "raw_data")
        shutil.rmtree(os.path.join(raw, "tracebase-master"), ignore_errors=True)
        open(os.path.join(raw, "raw_github.zip"), "w").close()
        os.makedirs(os.path.join(raw, "tracebase-master", "complete"))
        for (ty, name, rec), day in zip(files, dates):
            d = os.path.join(raw, "tracebase-master", "complete", ty)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, name), "w") as f:
                for s, w in rec:
                    f.write("%s %02d:%02d:%02d;%d;%d\n" % (day, s // 3600, s // 60 % 60, s % 60, w, w + 1))


def near(v):
    r = round(float(v))
    return int(r) if abs(v - r) <= 1e-6 * max(1, abs(r)) and abs(r) < 1999999999 else WRONG


def record(t, sc, files, size, rng):
    from demod.datasets.tracebase.loader import Tracebase
    sc.recordings(files, [rng.choice(["02/03/2012", "14/12/2011", "31/01/2012", "01/12/2011"]) for _ in files])
    step = datetime.timedelta(seconds=size)
    for kind in ("full", "switchedON"):
        if kind == "full" or rng.random() < .5:
            sc.forget("tracebase")
        o = Tracebase(step_size=step)
        r = o.load_real_profiles_dict(kind)
        t.add("profiles", kind=kind, size=size, files=files,
              out=[[ty, n, [near(float(x) * size * 32) for x in np.asarray(a)]] for ty, d in r.items() for n, a in d.items()])


def name_files(recs, rng):
    names, out = set(), []
    for r in recs:
        while True:
            ty = rng.choice(TYPES + OTHER) if rng.random() < .9 else rng.choice(["Projector", "VideoProjector"])
            n = (rng.choice(SELECTED) if rng.random() < .4 else "dev_%06X_2012.01.%02d" % (rng.randrange(1 << 24), rng.randint(1, 28))) + ".csv"
            if ("Projector" if ty == "VideoProjector" else ty, n) not in names:
                break
        names.add(("Projector" if ty == "VideoProjector" else ty, n))
        out.append([ty, n, r])
    return out


def random_recording(rng, size):
    style = rng.random()
    total = rng.choice([1, 3, 7]) * size if rng.random() < .4 else rng.randint(1, 6 * size + 10)
    s = rng.choice([0, rng.randint(0, 80000), rng.randint(0, 80000)])
    rec = [[s, rng.choice([0, 6, 7, 100, 2000])]]
    end = min(s + total, 86399)
    while rec[-1][0] < end:
        g = rng.choice([1, 1, 2, 4] if style < .5 else [1, 2, 4, 8, 16, 32])
        w = rec[-1][1] if rng.random() < .4 else rng.choice([0, 0, 3, 6, 7, 12, rng.randint(0, 60), rng.randint(0, 3000)])
        s = rec[-1][0] + g
        if s > end:
            s = rec[-1][0] + 1
        rec.append([s, w])
    return rec


# ------------------------------------------------------------------ ownership
class Ownership:
    def __init__(self, sc):
        import pandas as pd
        self.pd, self.sc = pd, sc
        self.file = os.path.join(sc.folder("DESTATIS", "raw_data"), "appliances_penetration.ods")
        self.grid = pd.read_excel(os.path.join(sc.shipped, "DESTATIS", "raw_data", "appliances_penetration.ods"), header=None, engine="odf")

    def rows(self, grid):
        def num(x):
            return -1 if isinstance(x, str) or x != x else int(round(float(x) * 10))
        out = []
        for k in range(3, 59):                       # the first three rows are the header
            ty = grid.iat[k, 0]
            if isinstance(ty, str):
                out.append({"type": ty.replace(" ", ""), "number": {n: num(grid.iat[k, c]) for c, n in COLS.items()},
                            "share": {n: num(grid.iat[k + 51, c]) for c, n in COLS.items()}})
        return out

    def make(self, rng):
        """A table of the same layout with other types and numbers."""
        g = self.grid.copy()
        g = g.astype(object)
        types = ["tv", "fridge", "laptop_computer", "phone", "dryer", "tv_box", "washing machine", "x"]
        for k in range(8, 56):
            ty = rng.choice(types + [None, None, None])
            g.iat[k, 0] = ty if ty is None or rng.random() < .7 else " %s " % ty
            g.iat[k + 51, 0] = g.iat[k, 0]
            for c in range(2, g.shape[1]):
                if rng.random() < .1:
                    n, p = rng.choice([("-", "-"), ("-", 50.5), (51.5, "-")])
                else:
                    p = rng.choice([0, 100, rng.randint(0, 1000) / 10, rng.randint(900, 1000) / 10])
                    n = round(p + rng.choice([0, 100, 200, 300.5, rng.randint(0, 3000) / 10, rng.randint(0, 100) / 10]), 1)
                g.iat[k, c], g.iat[k + 51, c] = n, p
        return g

    def subgroups(self, rng):
        s = [dict(nres=n) for n in (1, 2, 3, 4, 5, 6)]
        s += [dict(htype=1, gender=g) for g in (0, 1, 2, 3)] + [dict(htype=1, nres=1), dict(htype=2, nres=2), dict(htype=2)]
        s += [dict(htype=3, nres=n) for n in (2, 3, 4, 5)] + [dict(htype=4, nres=n) for n in (3, 4, 5)] + [dict(htype=5, nres=rng.randint(1, 5))]
        s += [dict(revenue=r) for r in (1, 899, 900, 1299, 1300, 1499, 1500, 1999, 2000, 2599, 2600, 3599, 3600, 4999, 5000, 20000)]
        s += [dict(year=y) for y in (2008, 2013, 2018, 2016)]
        s += [dict(nres=rng.randint(1, 5), revenue=rng.randint(1, 6000)), dict(revenue=rng.randint(1, 6000), year=2013), dict(nres=3, gender=2), {}]
        return s

    def drive(self, t, grid, sgs, rng, source=None):
        from demod.datasets.DESTATIS.loader import Destatis
        grid.to_excel(self.file, engine="odf", header=False, index=False)
        for s in sgs:
            s = dict(dict(nres=0, htype=0, gender=0, revenue=0, year=0), **s)
            d = {k: v for k, v in (("n_residents", s["nres"]), ("household_type", s["htype"]), ("gender", s["gender"]),
                                   ("household_revenue", s["revenue"]), ("year", s["year"])) if v}
            if rng.random() < .3:
                d.update(rng.choice([{"weekday": [6, 7]}, {"quarter": 2}, {"weekday": 3}, {"age": (20, 30)}, {"life_situation": 2}]))
            items = list(d.items())
            rng.shuffle(items)
            try:
                self.sc.forget("DESTATIS")
                r = Destatis().load_appliance_ownership_dict(dict(items))
                refused = False
            except (ValueError, AssertionError):
                r, refused = {}, True
            out = []
            for k, v in r.items():
                b, _, n = k.rpartition("_")
                ty, n = (b, int(n)) if n.isdigit() and b else (k, 1)
                out.append([ty, n, near(float(v) * 1000)])
            t.add("own", sg=s, refused=refused, out=out)


# ------------------------------------------------------------------ sheets
NAMES = ["name", "type", "equipped_prob", "related_activity", "inactive_switch_off", "mean_elec_consumption ", "uses_water ", "mean_duration ",
         " after_cycle_delay", "poisson sampling", "target_cycle_year ", "probabilistic", "heat_gains_ratio "]


def cell(x):
    if x is None or (isinstance(x, (float, np.floating)) and x != x):
        return {"k": "none", "v": 0, "s": []}
    if isinstance(x, (str, np.str_)):
        return {"k": "s", "v": 0, "s": list(str(x))}
    if isinstance(x, (bool, np.bool_)):
        return {"k": "b", "v": 64 * int(x), "s": []}
    return {"k": "n", "v": q(x, 64), "s": []}


def text(rng, sep=" "):
    w = "".join(rng.choice("abcXYZ_-/()19") for _ in range(rng.randint(1, 5)))
    w = "t" + w
    if sep and rng.random() < .5:
        k = rng.randint(0, len(w))
        w = w[:k] + rng.choice([" ", "  "]) + w[k:]
    return w + rng.choice(["", " "]) if sep else w


def number(rng):
    return rng.choice([0, 1, rng.randint(0, 5000), rng.randint(0, 64000) / 64, rng.randint(0, 64) / 64])


def sheet(rng, names, n):
    """Header and rows. 'name' and 'type' are always there."""
    use = ["name", "type"] + [x for x in names if x not in ("name", "type") and rng.random() < .7]
    if "target_cycle_year " in names and "target_cycle_year " not in use:
        use.append("target_cycle_year ")
    rng.shuffle(use)
    header = []
    for u in use:
        while rng.random() < .3:
            header.append(None)
        header.append(u)
    kinds = ["flag" if h and h.strip() in ("inactive_switch_off", "uses_water", "probabilistic", "is_combi") else
             "s" if h in ("name", "type", "related_activity", "fuel_type ") else "target" if h == "target_cycle_year " else
             "holes" if rng.random() < .15 else "n" for h in header]
    rows = []
    tgt = {}
    types = [text(rng, None) for _ in range(rng.randint(1, 5))]
    ity = header.index("type")
    for _ in range(n):
        r = []
        ty = rng.choice(types) + rng.choice(["", " "])
        for j, k in enumerate(kinds):
            r.append(ty if j == ity else text(rng) if k == "s" else rng.randint(0, 1) if k == "flag" else
                     tgt.setdefault(ty.strip(), number(rng)) if k == "target" else None if k == "holes" and rng.random() < .4 else number(rng))
        rows.append(r)
    return header, rows


def put(wb, title, top, header, rows, rng):
    if title in wb.sheetnames:
        del wb[title]
    ws = wb.create_sheet(title)
    for k in range(top):
        ws.cell(k + 1, 1, "about %d" % k)
        ws.cell(k + 1, rng.randint(2, 6), rng.choice(["W", 5, None]))
    for j, h in enumerate(header):
        if h is not None:
            ws.cell(top + 1, j + 1, h)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            if v is not None:
                ws.cell(top + 2 + i, j + 1, v)


class Sheets:
    def __init__(self, sc):
        import openpyxl
        self.op, self.sc = openpyxl, sc
        self.template = os.path.join(sc.shipped, "ExcellInputFile", "inputs.xlsx")

    def lights(self, ws, rng):
        """Numbers at the places the example file has them; [row, column, value]."""
        cells = {}
        c = number(rng)
        cells[3, 5], cells[3, 6] = c, c if rng.random() < .3 else number(rng)
        cells[23, 5] = rng.randint(1, 64) / 64
        for r in range(36, 42):
            cells[r, 3], cells[r, 4] = r - 36, number(rng)
        for r in range(54, 63):
            cells[r, 1] = r - 53
            for k in (2, 3, 4):
                cells[r, k] = number(rng)
        cells[69, 3], cells[70, 3] = number(rng), number(rng)
        self.nb = rng.randint(1, 6)
        for r in range(76, 76 + self.nb):
            cells[r, 3], cells[r, 4] = number(rng), number(rng)
        for row in ws.iter_rows(min_row=77, max_row=90):
            for x in row:
                x.value = None
        for (r, k), v in cells.items():
            ws.cell(r + 1, k + 1, v)
        for k in range(self.nb):
            ws.cell(77 + k, 3, "bulb %d" % k)
        return [[r, k, q(v, 64)] for (r, k), v in cells.items()]

    def make(self, path, rng):
        wb = self.op.load_workbook(self.template, data_only=True)
        for n in wb.sheetnames:
            if n not in ("Appliances", "Lighting", "Heating Systems", "Buildings"):
                del wb[n]
        w = {}
        for title, top, names in (("Appliances", 14, NAMES), ("Buildings", 4, ["name", "type", "out_build_transfer_coef ", "int_capacitance ", "height", "x y"]),
                                  ("Heating Systems", 4, ["name", "type", "is_combi", "fuel_type ", "cyl_volume ", "heat_output_sh", "equipped_prob"])):
            w[title] = sheet(rng, names, rng.randint(1, 8))
            put(wb, title, top, *w[title], rng)
        w["Lighting"] = self.lights(wb["Lighting"], rng)
        wb.save(path)
        return w

    @staticmethod
    def table(t, r, hr, flags):
        header, rows = hr
        n = r.pop("number")
        t.add("table", header=[list(h) if h else [] for h in header], rows=[[cell(x) for x in row] for row in rows], flags=flags, number=q(n),
              out=[[k, [cell(x) for x in v]] for k, v in r.items()])

    @staticmethod
    def targets(t, r, hr):
        header, rows = hr
        a, b = header.index("type"), header.index("target_cycle_year ")
        t.add("targets", rows=[[row[a].replace(" ", ""), q(row[b], 64)] for row in rows], out=[[k, q(float(v), 64)] for k, v in r.items()])

    def loads(self, t, o, w, german):
        self.table(t, o.load_appliance_dict(), w["Appliances"], ["inactive_switch_off", "uses_water"] + (["probabilistic"] if german else []))
        self.table(t, dict(o.load_buildings_dict({"n_residents": 2})), w["Buildings"], [])
        self.table(t, dict(o.load_heating_system_dict({"n_residents": 2})), w["Heating Systems"], [])
        self.targets(t, o.load_yearly_target_switchons({"n_residents": 2}), w["Appliances"])
        d, (bw, bp), (m, s) = o.load_crest_lighting(), o.load_bulbs(), o.load_installed_bulbs_stats()
        v = lambda a: [q(x, 64) for x in np.asarray(a)]
        t.add("lights", cells=w["Lighting"], nbulbs=self.nb, mean=q(float(d["irradiance_threshold_mean"]), 64), std=q(float(d["irradiance_threshold_std"]), 64),
              scalar=q(float(d["calibration_scalar"]), 64), occ=v(d["effective_occupancy"]), low=v(d["durations_minutes_low"]),
              high=v(d["durations_minutes_high"]), cdf=v(d["durations_cdf"]), watts=v(bw), share=v(bp), stats=[q(float(m), 64), q(float(s), 64)])

    def drive(self, t, rng):
        from demod.datasets.ExcellInputFile.loader import InputFileLoader
        from demod.datasets.Germany.loader import GermanDataHerus
        p = os.path.join(self.sc.top, "my inputs.xlsx")
        w = self.make(p, rng)
        self.loads(t, InputFileLoader(p), w, False)
        ver = rng.choice(["v0.1", "vBottaccioli"])
        w = self.make(os.path.join(self.sc.folder("Germany", "raw_data"), "data_%s.xlsx" % ver), rng)
        self.sc.climate("DE_population.csv", [[0] + [1] * 9] * 3)
        self.sc.forget("Germany")
        self.loads(t, GermanDataHerus(ver), w, True)


# ------------------------------------------------------------------ climate
NINJA = ["precipitation", "snowfall", "snow_mass", "clearness", "air_density", "outside_temperature"]
COLUMN = {"clearness": "cloud_cover", "outside_temperature": "temperature"}


def moment(h):
    return datetime.datetime(2014, 2, 27) + datetime.timedelta(hours=h)


def ninja_file(self, name, rows):
    cols = [COLUMN.get(n, n) for n in NINJA] + ["irradiance_surface", "irradiance_toa"]
    order = list(range(len(cols)))
    random.Random(len(rows)).shuffle(order)
    with open(os.path.join(self.folder("RenewablesNinja", "raw_data"), name), "w") as f:
        f.write("# Renewables.ninja\n# units\n" + ",".join(["time"] + [cols[k] for k in order]) + "\n")
        for r in rows:
            f.write(",".join([moment(r[0]).strftime("%Y-%m-%d %H:%M:%S")] + ["%r" % (r[k + 1] / 64) for k in order]) + "\n")


Scratch.climate = ninja_file


def climate(t, sc, rng):
    from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
    from demod.datasets.OpenPowerSystems.loader import OpenPowerSystemClimate
    h0 = rng.randint(0, 100)
    rows = [[h0 + k] + [rng.randint(-3000, 60000) for _ in range(8)] for k in range(rng.randint(3, 60))]
    hours = lambda a: [q((x - np.datetime64("2014-02-27T00", "h")) / np.timedelta64(1, "h")) for x in np.asarray(a)]
    country, code = rng.choice([("germany", "DE"), ("switzerland", "CH"), ("england", "GB"), ("FR", "FR")])
    wt = rng.choice(["population", "land_area"])
    sc.climate("%s_%s.csv" % (code, wt), rows)
    sc.forget("RenewablesNinja", "OpenPowerSystems")
    r = NinjaRenewablesClimate(country, weighted_type=wt).load_historical_climate_data(moment(h0))
    t.add("climate", rows=rows, names=NINJA, out=dict({k: [q(float(x), 64) for x in v] for k, v in r.items() if k != "datetime"}, datetime=hours(r["datetime"])))
    if code == "FR":
        return
    rows = [[h0 + k] + [rng.randint(-3000, 60000) for _ in range(3)] for k in range(rng.randint(3, 60))]
    other = [c for c in ("DE", "CH", "GB") if c != code]
    with open(os.path.join(sc.folder("OpenPowerSystems", "raw_data"), "weather_data.csv"), "w") as f:
        cs = other + [code]
        rng.shuffle(cs)
        f.write(",".join(["utc_timestamp"] + ["%s_%s" % (c, n) for c in cs for n in ("temperature", "radiation_direct_horizontal", "radiation_diffuse_horizontal")]) + "\n")
        for r in rows:
            f.write(",".join([moment(r[0]).strftime("%Y-%m-%dT%H:%M:%SZ")] + ["%r" % (x / 64) if c == code else "%d" % rng.randint(0, 900) for c in cs for x in r[1:]]) + "\n")
    r = OpenPowerSystemClimate(country).load_historical_climate_data(moment(h0))
    t.add("climate", rows=rows, names=["outside_temperature"], out={"outside_temperature": [q(float(x), 64) for x in r["outside_temperature"]],
          "irradiance": [q(float(x), 64) for x in r["irradiance"]], "datetime": hours(r["datetime"])})


# ------------------------------------------------------------------ the German data set
def digest(x):
    """The data of an answer, whatever holds it: lists and arrays are the same, so are names and arrays of names."""
    if isinstance(x, dict):
        return "{%s}" % ",".join(sorted(str(k) + ":" + digest(v) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return "[%s]" % ",".join(digest(v) for v in x)
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return "%r" % round(float(x), 9)
    if hasattr(x, "__dict__"):
        return digest(vars(x))
    return str(x)


def ident(x):
    return int(hashlib.sha256(digest(x).encode()).hexdigest()[:7], 16)


def german(t, sc, rng):
    from demod.datasets.Germany.loader import GermanDataHerus
    from demod.datasets.GermanTOU.loader import GTOU
    from demod.datasets.DESTATIS.loader import Destatis
    from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
    from demod.datasets.tracebase.loader import Tracebase
    for v, act, calls in (("v0.1", "Sparse9States", ["load_sparse_tpm", "load_activity_probability_profiles"]),
                          ("vBottaccioli", "Bottaccioli2018", ["load_activity_probabilities", "load_daily_activity_starts", "load_activity_probability_profiles", "load_tpm_with_duration"])):
        shutil.copy(os.path.join(sc.shipped, "Germany", "raw_data", "data_%s.xlsx" % v), sc.folder("Germany", "raw_data"))
        shutil.copy(os.path.join(sc.shipped, "DESTATIS", "raw_data", "appliances_penetration.ods"), sc.folder("DESTATIS", "raw_data"))
        sc.climate("DE_population.csv", [[k] + [rng.randint(0, 999) for _ in range(8)] for k in range(30)])
        sc.climate("CH_population.csv", [[k] + [rng.randint(0, 999) for _ in range(8)] for k in range(30)])
        sc.climate("DE_land_area.csv", [[k] + [rng.randint(0, 999) for _ in range(8)] for k in range(30)])
        files = name_files([random_recording(rng, 60) for _ in range(6)], rng)
        sc.recordings(files, ["02/03/2012"] * len(files))
        sc.forget("Germany", "tracebase", "DESTATIS", "RenewablesNinja")
        g = GermanDataHerus(v)
        src = {"gtou": GTOU(act), "destatis": Destatis(), "climate": NinjaRenewablesClimate("germany"), "tracebase": Tracebase()}
        ty, n = rng.choice([(1, 1), (2, 2), (3, 2), (3, 3), (4, 3), (4, 4), (4, 5)])
        sg = {"household_type": ty, "n_residents": n} if act != "Bottaccioli2018" else {"household_type": ty, "n_residents": n, "weekday": [1, 2, 3, 4, 5]}
        args = {"load_historical_climate_data": (moment(rng.randint(0, 20)),), "load_real_profiles_dict": (rng.choice(["full", "switchedON"]),),
                "load_appliance_ownership_dict": ({"n_residents": rng.randint(1, 5)},), "load_population_subgroups": (rng.choice(["household_types_2019", "resident_number_2019"]),)}
        args["load_activity_probability_profiles"] = (dict(sg, weekday=[1, 2, 3, 4, 5]),)
        args["load_tpm_with_duration"] = (rng.choice([{"weekday": [6, 7]}, {"household_position": 2}, {"household_position": 3, "weekday": [1, 2, 3, 4, 5]}]),)
        for c in calls + [c for c in args if c not in ("load_activity_probability_profiles", "load_tpm_with_duration")]:
            a = args.get(c, (sg,))
            got = getattr(g, c)(*a)
            ids = []
            for k, o in src.items():
                try:
                    ids.append([k, ident(getattr(o, c)(*a))])
                except (AttributeError, NotImplementedError):
                    pass
            t.add("german", what=c, got=ident(got), src=ids)
        for _ in range(2):                                    # made, then stored
            d = g.load_thermostat_dict({"n_residents": n})
            v100 = lambda k, m=100: [qr(float(x), m) for x in np.asarray(d[k])]
            t.add("thermostat", home=v100("home_temperatures_values", 1), homecdf=v100("home_temperatures_cdf"), water=v100("water_temperatures_values", 1),
                  watercdf=v100("water_temperatures_cdf"), emitter=q(float(d["emitter_setpoints"])), band={k: q(float(v)) for k, v in d["deadband"].items()})
        try:
            f = g.load_fisher_lighting()
            t.add("fisher", version=v, refused=False, out=[q(f[k]) for k in ("irradiation_threshold_min", "irradiation_threshold_max", "individual_light_use")])
        except NotImplementedError:
            t.add("fisher", version=v, refused=True, out=[])


def population(t, sc):
    from demod.datasets.DESTATIS.loader import Destatis
    for n in ("resident_number", "crest", "household_types", "resident_number_2013", "resident_number_2019", "household_types_2019"):
        sc.forget("DESTATIS")
        s, p, k = Destatis().load_population_subgroups(n)
        t.add("population", what=n, out=[[q(x["n_residents"]), q(x.get("household_type", 0)), qr(y, 10000)] for x, y in zip(s, p)] if len(s) == len(p) else [],
              total=q(k / 1000))


def synthetic(t, sc, rng):
    """Profiles of FfE: first from the files, then from what was stored; with and without the labels, in W and as given."""
    from demod.datasets.FfE_Open_Data import FfE_DataLoader
    sc.forget("FfE_Open_Data")
    rows = [[rng.randint(1, 11), rng.choice([0, 0, 1, 2, 3]), []] for _ in range(rng.randint(1, 9))]
    n = rng.randint(1, 6)
    for r in rows:
        r[2] = [2 * rng.randrange(640) + 1 for _ in range(n)]
    rows[rng.randrange(len(rows))][1] = 0
    for what in ("electric", "thermal"):
        with open(os.path.join(sc.folder("FfE_Open_Data", "raw_data"), "v_opendata_%s_load.htm" % what), "w") as f:
            json.dump({"data": [[{"internal_id_1": a, "internal_id_2": b, "values": [x / 64 for x in v]} for a, b, v in rows]]}, f)
    calls = [(w, lab, watts) for w in ("electric", "thermal") for lab in (True, False) for watts in ((True, False) if w == "electric" else (False,))] * 2
    rng.shuffle(calls)
    for what, lab, watts in calls:
        ld = FfE_DataLoader(allow_pickle=True)
        kw = {"convert_to_watts": watts} if what == "electric" and not (watts and rng.random() < .5) else {}
        r = getattr(ld, "load_%s_load_profiles" % what)(return_labels=lab, **kw)
        p, names = r if lab else (r, [])
        names = [q(x["hh_type"]) for x in names]
        t.add("synthetic", what=what, rows=rows, watts=watts, labelled=lab, out=[[q(float(x), 64) for x in y] for y in p], labels=names,
              said=[str(x).strip() for x in ld.load_labels_name(names)])


def drive(rec, inp, tier, seed):
    rng = random.Random(seed)
    sc = Scratch()
    try:
        for size in sorted({b["n"] for b in inp.get("beh", [])}):
            recs = [b["rec"] for b in inp["beh"] if b["n"] == size]
            for k in range(0, len(recs), 40):
                with rec.trace("replay%d.%d" % (size, k)) as t:
                    record(t, sc, name_files([[list(x) for x in r] for r in recs[k:k + 40]], rng), size, rng)
        for k in range(inp.get("recordings", 0)):
            size = rng.choice([1, 2, 10, 30, 60, 60, 60, 90, 600])
            with rec.trace("recordings%d" % k) as t:
                record(t, sc, name_files([random_recording(rng, size) for _ in range(12)], rng), size, rng)
        if inp.get("own"):
            own = Ownership(sc)
            for k in range(inp["own"]):
                g = own.grid if inp.get("shipped") and k == 0 else own.make(rng)
                sgs = own.subgroups(rng)
                rng.shuffle(sgs)
                with rec.trace("ownership%d" % k, rows=own.rows(g)) as t:
                    own.drive(t, g, sgs[:inp["sgs"]], rng)
        if inp.get("sheets"):
            sh = Sheets(sc)
            for k in range(inp["sheets"]):
                with rec.trace("sheets%d" % k) as t:
                    sh.drive(t, rng)
        for k in range(inp.get("climate", 0)):
            with rec.trace("climate%d" % k) as t:
                climate(t, sc, rng)
        if inp.get("german"):
            with rec.trace("german") as t:
                german(t, sc, rng)
            with rec.trace("population") as t:
                population(t, sc)
            for k in range(inp["german"]):
                with rec.trace("synthetic%d" % k) as t:
                    synthetic(t, sc, rng)
    finally:
        shutil.rmtree(sc.top, ignore_errors=True)


main(drive)
