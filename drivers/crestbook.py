"""Driver of C33: made-up CREST workbooks through the real reader of the CREST data set.

Each process copies the package to a scratch folder, puts the workbooks where the reader looks for them and forgets what is
stored, so that everything is read from the workbook first and from what was stored the second time. Nothing is downloaded.
"""
import importlib.util
import os
import random
import shutil
import sys
import tempfile
import urllib.request
import warnings

import numpy as np
from openpyxl import Workbook

from vf import main, q, qr, WRONG

warnings.simplefilter("ignore")
ELECTRIC = """CHEST_FREEZER FRIDGE_FREEZER FRIDGE UPRIGHT_FREEZER ANSWER_MACHINE CD_PLAYER CLOCK PHONE HIFI IRON VACUUM FAX PC PRINTER TV1 TV2
TV3 VCR_DVD RECEIVER HOB OVEN MICROWAVE KETTLE SMALL_COOKING DISH_WASHER TUMBLE_DRYER WASHING_MACHINE WASHER_DRYER DESWH E_INST ELEC_SHOWER""".split()
WATER = ["BASIN", "SINK", "SHOWER", "BATH"]
USES = ["LEVEL", "ACTIVE_OCC", "ACT_IRON", "ACT_HOUSECLEAN", "ACT_TV", "ACT_COOKING", "ACT_LAUNDRY", "ACT_WASHDRESS"]
ACTS = ["Act_TV", "Act_Cooking", "Act_Laundry", "Act_WashDress", "Act_Iron", "Act_HouseClean"]
WORK = {"d": [1, 2, 3, 4, 5], "e": [6, 7]}
HOMES = ["Probability of dwelling having this number of residents", "Probability of dwelling having this number of residents, in the UK"]


class Sheet:
    def __init__(self):
        self.cells = {}

    def put(self, r, c, v):
        self.cells[r, c] = v

    def row(self, r, c, vs):
        for k, v in enumerate(vs):
            self.cells[r, c + k] = v

    def write(self, ws):
        rows = {}
        for (r, c), v in self.cells.items():
            rows.setdefault(r, {})[c] = v
        for r in range(max(rows) + 1):
            x = rows.get(r, {})
            ws.append([x.get(c) for c in range(max(x) + 1)] if x else [])


def parts(rng, n, total):
    """n integers that make up the total, some of them nothing."""
    w = [rng.choice([0, 0, 1, 1, 2, 5, 9]) for _ in range(n)]
    w[rng.randrange(n)] += 1
    x = [total * k // sum(w) for k in w]
    x[max(range(n), key=lambda k: w[k])] += total - sum(x)
    return x


def weights(rng, n, bad=False):
    if bad:
        return parts(rng, n, rng.choice([870, 1130, 300, 2000, 899, 1101]))
    s = rng.random()
    if s < .12:
        return [0] * n
    if s < .25:
        x = [0] * n
        x[rng.randrange(n)] = rng.choice([1000, 999, 1001, 950])
        return x
    return parts(rng, n, rng.choice([1000, 1000, 1000, 999, 1001, 960, 1040, 910, 1090]))


def f(x):
    return x / 1000 if x % 1000 else x // 1000


class Book:
    """What a workbook says, and the workbook."""

    def __init__(self, rng, version, sizes, pool=(), bad=None):
        self.rng, self.version, self.sheets = rng, version, {}
        self.tpm = {}
        pool = list(pool)
        for n, day in sizes:
            s = self.sheet("tpm%d_w%s" % (n, day))
            ns = (n + 1) ** 2
            rows = []
            for k in range(144 * ns):
                rows.append(pool.pop() if n == 1 and pool else weights(rng, ns))
            if bad == (n, day):
                rows[rng.randrange(len(rows))] = weights(rng, ns, True)
            names = [10 * a + b for a in range(n + 1) for b in range(n + 1)]
            s.put(0, 0, "Transition probability matrices")
            s.row(9, 0, ["Time", "State"] + names + ["Total"])
            for k, r in enumerate(rows):
                s.row(10 + k, 0, [k // ns, names[k % ns]] + [f(x) for x in r] + [sum(r)])
            self.tpm[n, day] = rows
        self.starting()
        self.activity()
        self.appliances()
        self.clearness()
        self.light()
        self.heating()
        self.building()
        self.thermostat()

    def sheet(self, name):
        return self.sheets.setdefault(name, Sheet())

    def starting(self):
        s, rng = self.sheet("Starting states"), self.rng
        self.start = {}
        for day, head in (("d", 4), ("e", 58)):
            s.put(head - 2, 1, "Starting states, " + day)
            s.row(head, 1, ["Number of residents in the house", 1, 2, 3, 4, 5, 6])
            s.row(head + 1, 1, ["state", "p", "p", "p", "p", "p", "p"])
            rows = []
            for k in range(49):
                rows.append([10 * (k // 7) + k % 7] + [rng.randrange(1025) for _ in range(6)])
                s.row(head + 2 + k, 1, [rows[-1][0]] + [x / 1024 for x in rows[-1][1:]])
            self.start[day] = rows

    def activity(self):
        s, rng = self.sheet("ActivityStats"), self.rng
        s.row(11, 1, ["Number of residents", HOMES[self.version == "2.3.3"], "note"])
        x = parts(rng, 5, 1024)
        self.homes = [[k + 1, x[k]] for k in range(5)]
        for k in range(5):
            s.row(12 + k, 1, [k + 1, x[k] / 1024, rng.randrange(9)])
        self.labels = rng.sample(ACTS, 6)
        self.profiles = []
        s.row(28, 0, ["Day", "Occupants", "Activity"])
        s.row(28, 4, ["%02d:%02d" % (k // 6, k % 6 * 10) for k in range(144)])
        for k in range(72):
            r = [rng.randrange(1025) for _ in range(144)]
            self.profiles.append(r)
            s.row(29 + k, 0, [k // 36, k // 6 % 6, k % 6, self.labels[k % 6]])
            s.row(29 + k, 4, [v / 1024 for v in r])
        s.row(102, 3, ["average"] + [rng.random() for _ in range(144)])

    def appliances(self):
        s, rng = self.sheet("AppliancesAndWaterFixtures"), self.rng
        head = {3: None, 4: None, 5: None, 7: "(W)", 9: "(min)", 11: "(W)", 13: "(min)", 16: "(kWh)", 18: "(min)", 20: "(W)", 22: "(min)"}
        for c, v in head.items():
            if v:
                s.put(7, c, v)
        s.put(7, 33, "(end)")
        names = list(ELECTRIC) if rng.random() < .5 else [rng.choice(ELECTRIC) for _ in ELECTRIC]
        if rng.random() < .7:
            rng.shuffle(names)
        self.apps = []
        for k, (r, name) in enumerate(zip(list(range(8, 39)) + list(range(45, 49)), names + WATER)):
            a = {"name": name, "act": rng.choice(USES), "prob": rng.randrange(65), "use": rng.randrange(64 * 3000) if rng.random() < .5 else 64 * rng.randrange(3000),
                 "dur": rng.randrange(1, 64 * 90), "delay": 64 * rng.randrange(90), "standby": 64 * rng.randrange(9), "on": rng.randrange(65),
                 "pf": rng.choice([-1, rng.randrange(65)])}
            s.put(r, 3, name)
            s.put(r, 4, a["prob"] / 64)
            s.put(r, 5, a["act"])
            s.put(r, 7, a["use"] / 64)
            s.put(r, 9, rng.randrange(50))
            s.put(r, 11, a["standby"] // 64)
            s.put(r, 13, a["dur"] / 64)
            s.put(r, 16, rng.randrange(500))
            s.put(r, 18, a["delay"] // 64)
            s.put(r, 20, rng.randrange(500))
            s.put(r, 22, rng.randrange(500))
            s.put(r, 28, a["on"] / 64)
            s.put(r, 29, rng.randrange(500))
            if a["pf"] >= 0:
                s.put(r, 30, a["pf"] / 64)
            s.put(r, 33, 1)
            self.apps.append(a)
        for r in range(39, 45):
            s.put(r, 3, "Water fixtures")
            for c in (7, 11, 13, 28, 30):
                s.put(r, c, rng.choice(["(min)", rng.randrange(99)]))

    def clearness(self):
        s, rng = self.sheet("ClearnessIndexTPM"), self.rng
        last = rng.random() < .5
        self.header = [x / 64 for x in sorted(rng.sample(range(1, 640), 100))]
        s.row(8, 0, ["From", "State"] + self.header + ["Clear", "Total"])
        self.clear = []
        for k in range(101):
            if k == 0:
                r = [0] * 101
                if rng.random() < .5:
                    r[1] = 1000
            else:
                r = parts(rng, 101, rng.choice([1000, 999, 1001, 960, 1040]))
            s.row(9 + k, 0, [k, k] + [f(x) for x in r] + [rng.randrange(9)])
            self.clear.append(r)
        s.row(111, 2, [rng.randrange(9) for _ in range(101)])

    def light(self):
        s, rng = self.sheet("light_config"), self.rng
        self.cells = {}

        def num(r, c, d=64):
            v = rng.randrange(1, 4000)
            while v in self.cells.values():
                v = rng.randrange(1, 4000)
            self.cells[r, c] = v
            s.put(r, c, v / 64)
        s.put(3, 1, "threshold")
        num(3, 5), num(3, 6)
        s.put(23, 1, "calibration")
        num(23, 5), num(23, 6)
        s.row(35, 3, ["number", "occupancy"])
        for r in range(36, 42):
            s.put(r, 3, r - 36)
            num(r, 4)
        s.row(53, 1, ["range", "(minutes)", "(minutes)", "probability"])
        for r in range(54, 63):
            s.put(r, 1, r - 53)
            num(r, 2), num(r, 3), num(r, 4)
        b = self.sheet("bulbs")
        b.row(9, 0, ["house", "n"] + ["bulb%d" % k for k in range(40)])
        kinds = rng.sample(range(1, 120), rng.choice([1, 3, 8]))
        self.bulbs = []
        for h in range(105):
            n = rng.randint(1, 38)
            r = [rng.choice(kinds) if k < n else rng.choice([0, -1, -1]) for k in range(38)]
            if h == 1:
                r = [rng.choice(kinds) for _ in range(38)]
            b.row(10 + h, 0, [h, n] + [None if x < 0 else x for x in r] + [rng.choice(kinds)])
            self.bulbs.append(r)

    def heating(self):
        s, rng = self.sheet("PrimaryHeatingSystems"), self.rng
        cols = [("no", None), ("name", "Type of heating unit"), ("kind", "Type of system"), ("prob", "Proportion of dwellings with this heating system"),
                ("fuel", "Type of fuel"), ("flow", "Fuel flow rate (nominal)"), ("calorific", "Calorific value of fuel flow rate"), ("eff", "Efficiency"),
                ("heat", "Heat output of unit"), ("standby", "Standby power"), ("pump", "Pump power"), ("volume", "DHW cylinder volume"), ("loss", "DHW Tank Heat Loss")]
        cols = cols[:1] + rng.sample(cols[1:], len(cols) - 1)
        self.systems = self.lines(s, cols, 7, {
            "name": lambda k: rng.choice(["Boiler", "Combi boiler", "System boiler", "Heat pump"]) + " %d" % k, "kind": lambda k: rng.randint(1, 3),
            "fuel": lambda k: rng.choice(["Mains gas", "Heating oil", "Electricity", "Solid fuel  (wood)", " Mains gas "])})

    def lines(self, s, cols, n, made):
        for c, (key, title) in enumerate(cols):
            if title:
                s.put(1, c, title)
            s.put(2, c, "unit")
            s.put(3, c, "symbol")
        out = []
        for k in range(n):
            r = {}
            for c, (key, _) in enumerate(cols):
                if key in made:
                    v = r[key] = made[key](k)
                else:
                    r[key] = self.rng.randrange(64 * 30000) if self.rng.random() < .5 else 64 * self.rng.randrange(30000)
                    v = r[key] / 64
                s.put(4 + k, c, v)
            out.append(r)
        return out

    def building(self):
        s, rng = self.sheet("Buildings"), self.rng
        t = "Thermal transfer coefficient "
        cols = [("no", None), ("name", "Description"), ("equipped_prob", "Proportion of dwellings of this building type"),
                ("out_build_transfer_coef", t + "between outside air and external building thermal capacitance"),
                ("build_int_transfer_coef", t + "between external building thermal capacitance and internal building thermal capacitance"),
                ("ventilation_transfer_coef", t + "representing ventilation heat loss between outside air and internal building thermal capacitance"),
                ("ext_capacitance", "External building thermal capacitance"), ("int_capacitance", "Internal building thermal capacitance"),
                ("irradiance_multiplier", "Global irradiance multiplier"), ("floor_area", "Floor area, living space"), ("height", "Height, living space"),
                ("emitters_target_temperature", "Nominal temperature of emitters "), ("emitters_transfer_coef", "Heat transfer coefficient of emitters"),
                ("emitters_capacitance", "Thermal capacitance of emitters"), ("u", "Average U value")]
        cols = cols[:1] + rng.sample(cols[1:], len(cols) - 1)
        n = rng.randint(1, 9)
        self.buildings = self.lines(s, cols, n, {"name": lambda k: "Building %d" % k})
        if self.version != "2.2":       # named otherwise in some workbooks
            c = len(cols)
            s.put(1, c, "Heat transfer coefficient of heat emitters")
            for k in range(n):
                s.put(4 + k, c, self.buildings[k]["emitters_transfer_coef"] / 64)

    def thermostat(self):
        s, rng = self.sheet("HeatingControls"), self.rng
        self.th = {}
        for what, head, n, title in (("homes", 3, 15, "Demand temperature"), ("waters", 22, 12, "Hot water delivery temperature")):
            p = parts(rng, n, 1024)
            v = rng.sample(range(10, 70), n)
            s.row(head, 2, [title, "Percentage of homes", "Cumulative"])
            for k in range(n):
                s.row(head + 1 + k, 2, [v[k], p[k] / 1024, rng.randrange(9)])
            self.th[what] = [[a, b] for a, b in zip(v, p)]
        s.row(38, 2, [1, .5, 3])

    def save(self, path):
        wb = Workbook(write_only=True)
        for n, s in self.sheets.items():
            s.write(wb.create_sheet(n))
        wb.save(path)


class Scratch:
    def __init__(self):
        src = os.path.dirname(importlib.util.find_spec("demod").origin)
        self.top = tempfile.mkdtemp(prefix="crest_", dir=os.environ["HOME"])
        shutil.copytree(src, os.path.join(self.top, "demod"), ignore=shutil.ignore_patterns("__pycache__", "parsed_data", "raw_data"))
        sys.path.insert(0, self.top)
        self.data = os.path.join(self.top, "demod", "datasets", "CREST")
        urllib.request.urlopen = self.no
        self.forget()
        os.makedirs(os.path.join(self.data, "raw_data"), exist_ok=True)
        import demod.datasets.base_loader as ld
        assert os.path.realpath(ld.__file__).startswith(os.path.realpath(self.top))

    def no(self, *a, **k):
        raise OSError("no network")

    def forget(self):
        shutil.rmtree(os.path.join(self.data, "parsed_data"), ignore_errors=True)

    def place(self, book):
        self.forget()
        book.save(os.path.join(self.data, "raw_data", "CREST_Demand_Model_v%s.xlsm" % book.version))
        from demod.datasets.CREST.loader import Crest
        return lambda: Crest(book.version)


def il(a, n=None, scale=64, fn=q):
    a = list(np.asarray(a).tolist())
    return [fn(x, scale) for x in a]


def texts(a):
    return [str(x) for x in a]


def transitions(t, book, crest, n, day, rng):
    ns = (n + 1) ** 2
    rows = book.tpm[n, day]
    bad = [k for k, r in enumerate(rows) if sum(r) and not 900 < sum(r) < 1100]
    pick = set(range(len(rows)) if n == 1 else rng.sample(range(len(rows)), 90 // n)) | set(bad) | {0, 1, ns - 1, ns, len(rows) - 1}
    sg = {"n_residents": n, "weekday": WORK[day]}
    for _ in range(2):
        ev = {"n": n, "ns": ns, "refused": False, "rows": [[k, rows[k], []] for k in sorted(pick)], "start": book.start[day], "shape": [], "labels": [], "pdf": []}
        try:
            tpm, labels, pdf = crest().load_tpm(dict(sg))
            tpm = np.asarray(tpm)
            ev.update(shape=list(tpm.shape), labels=il(labels, scale=1), pdf=il(pdf, scale=1024))
            if tpm.shape == (144, ns, ns):
                ev["rows"] = [[k, rows[k], [qr(x, 1000000) for x in tpm[k // ns, k % ns]]] for k in sorted(pick)]
        except ValueError:
            ev["refused"] = True
        t.add("tpm", **ev)


def asked(t, crest, rng):
    for n, days in [(0, WORK["d"]), (7, WORK["e"]), (1, [1, 2, 3]), (2, [1, 2, 3, 4, 5, 6, 7]), (3, [7, 6][:1]), (1, [6])]:
        try:
            crest().load_tpm({"n_residents": n, "weekday": days})
            r = False
        except ValueError:
            r = True
        t.add("asked", n=n, weekday=days, refused=r)


def profiles(t, book, crest, rng):
    for day in rng.sample("de", 2):
        times = sorted(rng.sample(range(144), 14) + [0, 143])
        times = sorted(set(times))
        n = rng.randint(1, 6)
        for _ in range(2):
            r = crest().load_activity_probability_profiles({"n_residents": n, "weekday": WORK[day]})
            t.add("activities", day=day, labels=book.labels, times=times, grid=[[r_[x] for x in times] for r_ in book.profiles],
                  ntimes=144 if all(np.asarray(v).shape == (144, 6) for v in r.values()) else 0,
                  out={str(k): [[q(v[x][o], 1024) for o in range(6)] for x in times] for k, v in r.items()})


def tables(t, book, crest, rng):
    v = book.version
    for _ in range(2):
        what = rng.choice(["crest", "resident_number"])
        s, p, k = crest().load_population_subgroups(what) if rng.random() < .7 else crest().load_population_subgroups()
        t.add("population", rows=book.homes, n=[q(x["n_residents"]) for x in s], share=il(p, scale=1024), total=q(k))
        g = crest().load_geographic_data()
        t.add("place", version=v, out={"country": str(g["country"]), "latitude": qr(g["latitude"], 10), "longitude": qr(g["longitude"], 10),
                                       "meridian": qr(g["meridian"], 10), "dst": q(g["use_daylight_saving_time"])})
        tpm, labels, step = crest().load_clearness_tpms()
        tpm = np.asarray(tpm)
        pick = [0, 1, 2, 100] + rng.sample(range(3, 100), 8)
        t.add("clearness", header=[q(x, 64) for x in book.header] + [-1], labels=il(labels), step=q(step.total_seconds()), shape=list(tpm.shape),
              rows=[[k, book.clear[k], [qr(x, 1000000) for x in tpm[k]]] for k in pick])
        d = crest().load_crest_lighting()
        t.add("lights", version=v, cells=[[r, c, x] for (r, c), x in book.cells.items()], mean=q(d["irradiance_threshold_mean"], 64),
              std=q(d["irradiance_threshold_std"], 64), scalar=q(d["calibration_scalar"], 64), occ=il(d["effective_occupancy"]),
              low=il(d["durations_minutes_low"]), high=il(d["durations_minutes_high"]), cdf=il(d["durations_cdf"]))
        c = np.asarray(crest().load_bulbs_config(), dtype=float)
        m, sd = crest().load_installed_bulbs_stats()
        w, sh = crest().load_bulbs()
        t.add("bulbs", grid=book.bulbs[:100], out=[[-1 if x != x else q(x) for x in r] for r in c], mean=qr(m, 1000), var=qr(sd * sd, 10000),
              watts=il(w, scale=1), share=[qr(x, 100000) for x in sh])
        h = crest().load_heating_system_dict({})
        t.add("heating", version=v, rows=[dict(r, fuel=list(r["fuel"])) for r in book.systems],
              out={k: (texts(x) if k == "name" else [list(y) for y in x] if k == "fuel_type" else [q(y) for y in x] if k == "is_combi" else il(x))
                   for k, x in h.items()})
        b = crest().load_buildings_dict({})
        t.add("buildings", rows=[{k: x for k, x in r.items() if k not in ("no", "u")} for r in book.buildings],
              out={k: texts(x) if k == "name" else il(x) for k, x in b.items()})
        h = crest().load_thermostat_dict({})
        t.add("thermostat", homes=book.th["homes"], waters=book.th["waters"], home=il(h["home_temperatures_values"], scale=1), homecdf=il(h["home_temperatures_cdf"], scale=1024),
              water=il(h["water_temperatures_values"], scale=1), watercdf=il(h["water_temperatures_cdf"], scale=1024), emitter=q(h["emitter_setpoints"]),
              band={k: q(x) for k, x in h["deadband"].items()})
        if v == "2.2":
            a = crest().load_appliance_dict()
            out = {k: il(a[k]) for k in ("equipped_prob", "mean_duration", "after_cycle_delay", "switch_on_prob_crest", "mean_elec_consumption",
                                         "standby_consumption", "mean_power_factor", "mean_water_consumption")}
            out.update({k: texts(a[k]) for k in ("name", "type", "related_activity")})
            out.update({k: il(a[k], scale=1) for k in ("inactive_switch_off", "uses_water")})
            out.update(number=q(a["number"]), poisson=[qr(x, 10) for x in a["poisson_sampling_lambda_liters"]])
            t.add("appliances", rows=book.apps, out=out)
            o = crest().load_appliance_ownership_dict({})
            t.add("ownership", rows=book.apps, out=[own(k) + [q(x, 64)] for k, x in o.items()])
    r = crest().load_real_profiles_dict("switchedON")
    t.add("cycles", washer=il(r["washingmachine"]["CREST_washingmachine"], scale=1), dryer=il(r["washer_dryer"]["CREST_washer_dryer"], scale=1))


def own(k):
    a, _, b = str(k).rpartition("_")
    return [a, int(b)] if b.isdigit() else [str(k), 1]


def drive(rec, inp, tier, seed):
    rng = random.Random(seed)
    sc = Scratch()
    try:
        pool = [[int(x) for x in b["rows"][0]] for b in inp.get("beh", [])]
        good = [r for r, b in zip(pool, inp.get("beh", [])) if b["read"] == "read" and sum(r) not in (900, 1100)]
        worst = [r for r, b in zip(pool, inp.get("beh", [])) if b["read"] == "refused" and sum(r) not in (900, 1100)]
        rng.shuffle(good)
        rng.shuffle(worst)
        k = 0
        while good and (k == 0 or k * 576 < len(good)) and k < inp.get("replays", 0):
            day = rng.choice("de")
            book = Book(rng, rng.choice(["2.2", "2.3.3"]), [(1, day)], good[k * 576:k * 576 + 576])
            with rec.trace("replay%d" % k) as t:
                transitions(t, book, sc.place(book), 1, day, rng)
            k += 1
        for k in range(min(len(worst), inp.get("refusals", 0))):
            day = rng.choice("de")
            book = Book(rng, rng.choice(["2.2", "2.3.3"]), [(1, day)])
            book.tpm[1, day][0] = worst[k]
            s = book.sheets["tpm1_w" + day]
            at = rng.choice([0, 575, rng.randrange(576)])
            book.tpm[1, day][at] = worst[k]
            s.row(10, 2, [f(x) for x in book.tpm[1, day][0]])
            s.row(10 + at, 2, [f(x) for x in worst[k]])
            with rec.trace("refusal%d" % k) as t:
                transitions(t, book, sc.place(book), 1, day, rng)
        for k in range(inp.get("books", 0)):
            sizes = [(1, "d"), (1, "e"), (2, rng.choice("de"))] + [(n, rng.choice("de")) for n in inp.get("big", []) if k == 0]
            version = ["2.2", "2.3.3"][(k + inp.get("first", 0)) % 2]
            book = Book(rng, version, sizes, bad=(2, sizes[2][1]) if rng.random() < .2 else None)
            crest = sc.place(book)
            with rec.trace("book%d" % k) as t:
                tables(t, book, crest, rng)
            with rec.trace("profiles%d" % k) as t:
                profiles(t, book, crest, rng)
            with rec.trace("transitions%d" % k) as t:
                t.limit = 600
                rng.shuffle(sizes)
                for n, day in sizes:
                    transitions(t, book, crest, n, day, rng)
                asked(t, crest, rng)
    finally:
        shutil.rmtree(sc.top, ignore_errors=True)


main(drive)
