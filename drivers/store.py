"""C24: what loads of data items return, how often they parse, after stops at every file operation and byte, full disks, failing
parses, cleared versions, and with several processes at once.  Everything happens in the staged copy of the tree."""
import builtins
import csv
import datetime
import io
import itertools
import json
import os
import random
import resource
import select
import signal
import sys
import time
import urllib.request
import warnings
import zipfile

import numpy as np
import pandas as pd

from vf import main, WRONG

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.getcwd())           # the scratch folder of this check: the staged tree and the traces
import demod.datasets as _datasets            # noqa: E402
HERE = os.path.realpath(os.path.dirname(_datasets.__file__))
from demod.datasets import base_loader, tou_loader  # noqa: E402
from demod.utils.sparse import SparseTPM      # noqa: E402
from demod.utils.subgroup_handling import Subgroup  # noqa: E402

RAISED = -1
WRITES = {"os.rename", "os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.rmtree", "shutil.move"}
hook = None


def _inside(p, root):
    try:
        p = os.fsdecode(p)
    except TypeError:
        return True
    return os.path.realpath(p).startswith(os.path.realpath(root))


def _audit(event, args):
    """Keeps destructive effects inside the scratch folder, and counts the file operations in the data folders."""
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) if isinstance(flags, int) else any(c in (mode or "r") for c in "wax+")
        if writing and not _inside(path, ROOT) and not str(path).startswith("/dev/"):
            raise PermissionError("outside the scratch folder: %s" % path)
        if hook and _inside(path, HERE):
            hook("w" if writing else "r", path)
    elif event in WRITES:
        for p in args[:2] if event in ("os.rename", "os.link", "os.symlink", "shutil.move") else args[:1]:
            if not _inside(p, ROOT):
                raise PermissionError("outside the scratch folder: %s" % p)
        if hook and _inside(args[0], HERE):
            hook("w", args[0])


sys.addaudithook(_audit)


# ------------------------------------------------------------------ values
def norm(x, arrays):
    if isinstance(x, dict):
        return {"d": sorted(([str(k), norm(v, arrays)] for k, v in x.items()), key=lambda e: e[0])}
    if isinstance(x, SparseTPM):
        return {"sparse": [norm(getattr(x, a), False) for a in ("times", "inds_from", "inds_to", "values", "n_states", "n_times", "dead_state_value")]}
    if isinstance(x, datetime.timedelta):
        return {"s": x.total_seconds()}
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    if isinstance(x, np.datetime64):
        return str(x.astype("datetime64[s]"))
    if isinstance(x, (np.ndarray, list, tuple, pd.Series)):
        return ["array" if arrays and isinstance(x, np.ndarray) else "list"] + [norm(e, arrays and not isinstance(x, np.ndarray)) for e in x]
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float) and x != x:
        return "nan"
    return float(x) if isinstance(x, (bool, int, float)) else x


def digest(x, arrays):
    return json.dumps(norm(x, arrays), sort_keys=True)


def f(i, *s):
    a = np.arange(int(np.prod(s)), dtype=float).reshape(s)
    return a / 7 + i / 3


def tpm(i):
    a = np.arange(8.).reshape(2, 2, 2) + i + 1
    return a / a.sum(axis=-1, keepdims=True)


def sparse(i):
    return SparseTPM(np.array([0, 0, 1]), np.array([0, 1, 0]), np.array([1, 0, 0]), np.array([1., .5, .25 + i / 64]), n_states=3, n_times=2)


SUBGROUPS = [
    [{"n_residents": 1}, {"n_residents": 2}], [{"n_residents": 1}, {"n_residents": 11}], [{}, {"n_residents": 1}],
    [{"household_type": 1, "n_residents": 2}, {"n_residents": 2}], [{"n_residents": 2, "household_type": 1}, {"n_residents": 1, "household_type": 2}],
    [{"household_type": [1, 2]}, {"household_type": [1]}], [{"household_position": 1}, {"household_position": 2}],
    [{"gender": "1", "n_residents": 3}, {"n_residents": 3}],
    [{"household_type": 1, "household_position": 1, "life_situation": 2, "n_residents": 11}, {"household_type": 1, "household_position": 1, "life_situation": 2, "n_residents": 12}],
]
TIMED = SUBGROUPS + [
    [{"n_residents": 1, "weekday": [6, 7]}, {"n_residents": 1, "weekday": [1, 2, 3, 4, 5]}], [{"n_residents": 2, "quarter": [1]}, {"n_residents": 2, "quarter": [2]}],
    [{"n_residents": 2, "quarter": [1, 2], "weekday": [6, 7]}, {"n_residents": 2, "quarter": [2], "weekday": [6, 7]}],
    [{"n_residents": 2, "household_type": 1, "weekday": [6, 7], "quarter": [1]}, {"n_residents": 2, "household_type": 1, "weekday": [6, 7], "quarter": [2]}],
    [{"n_residents": 2, "quarter": 1}, {"n_residents": 2}], [{"n_residents": 1, "weekday": 7}, {"n_residents": 1, "weekday": 6}],
]
WEEK = [{}, {"weekday": [6, 7]}, {"weekday": [1, 2, 3, 4, 5]}, {"quarter": [1]}, {"quarter": [3], "weekday": [6, 7]}]
NONE = [[None, None]]
# name: (class, load method, parse method, pools of keys, takes the key, time attributes are dropped, arrays are promised, value)
KINDS = {
    "population": ("home", "load_population_subgroups", "_parse_population_subgroups", [["household_types_2019", "resident_number"]], True, False, False,
                   lambda i: ([Subgroup(n_residents=1, household_type=i), Subgroup(n_residents=2)], np.array([.25, .75]), 1000 + i)),
    "appliances": ("home", "load_appliance_dict", "_parse_appliance_dict", NONE, False, False, True,
                   lambda i: {"type": ["kettle", "tv"], "name": np.array(["a", "b"]), "power": pd.Series([1.5, i]), "wet": np.array([True, False]), "number": 2}),
    "appliances_np": ("home", "load_appliance_dict", "_parse_appliance_dict", NONE, False, False, True,
                      lambda i: {"type": np.array(["kettle", "tv"]), "power": np.array([.1, i]), "number": np.int64(2), "mean": np.float64(.3)}),
    "profiles": ("home", "load_real_profiles_dict", "_parse_real_profiles_dict", [["full", "switchedON"], ["switchedOFF", "switchedON"]], True, False, True,
                 lambda i: {"kettle": {"k 1": f(i, 3), "k_2.csv": f(i, 2)}, "tv": {"k 1": f(i + 1, 2)}}),
    "ownership": ("home", "load_appliance_ownership_dict", "_parse_appliance_ownership_dict", SUBGROUPS, True, True, False,
                  lambda i: {"kettle": .5, "tv": np.float64(i / 7)}),
    "switchons": ("home", "load_yearly_target_switchons", "_parse_yearly_target_switchons", SUBGROUPS, True, True, False, lambda i: {"kettle": 100, "tv": np.float64(i)}),
    "consumption": ("home", "load_yearly_target_consumption", "_parse_yearly_target_consumption", SUBGROUPS, True, True, False, lambda i: {"kettle": 10.5, "tv": i}),
    "duration": ("home", "load_yearly_target_duration", "_parse_yearly_target_duration", SUBGROUPS, True, True, False, lambda i: {"kettle": 1000, "tv": np.int64(i)}),
    "clearness": ("home", "load_clearness_tpms", "_parse_clearness_tpms", NONE, False, False, True, lambda i: (tpm(i), np.array([.2, 1.]), datetime.timedelta(days=i - 1, minutes=i, microseconds=3))),
    "arma": ("home", "load_temperatures_arma", "_parse_temperatures_arma", NONE, False, False, False, lambda i: {"a": .1, "b": i / 3}),
    "geo": ("home", "load_geographic_data", "_parse_geographic_data", NONE, False, False, False,
            lambda i: {"country": "germany", "latitude": 52.5 + i, "use_daylight_saving_time": True}),
    "fisher": ("home", "load_fisher_lighting", "_parse_fisher_lighting", NONE, False, False, False, lambda i: {"irradiation_threshold_min": 30, "individual_light_use": i / 3}),
    "crest_lighting": ("home", "load_crest_lighting", "_parse_crest_lighting", NONE, False, False, True,
                       lambda i: {"calibration_scalar": .008 + i, "effective_occupancy": np.array([0, 1, 1.5]), "durations": f(i, 4)}),
    "bulbs": ("home", "load_bulbs", "_parse_bulbs", NONE, False, False, True, lambda i: (f(i, 3), f(i + 1, 3))),
    "bulbs_config": ("home", "load_bulbs_config", "_parse_bulbs_config", TIMED, True, False, True, lambda i: f(i, 2, 3)),
    "bulbs_stats": ("home", "load_installed_bulbs_stats", "_parse_installed_bulbs_stats", TIMED, True, False, False, lambda i: (20.5 + i, 3.25)),
    "buildings": ("home", "load_buildings_dict", "_parse_buildings_dict", TIMED, True, False, True, lambda i: {"name": ["a", "b"], "capacity": f(i, 2), "number": 2}),
    "heating_system": ("home", "load_heating_system_dict", "_parse_heating_system_dict", TIMED, True, False, True, lambda i: {"fuel": np.array([1, 2]), "power": f(i, 2), "number": 2}),
    "thermostat": ("home", "load_thermostat_dict", "_parse_thermostat_dict", TIMED, True, False, True, lambda i: {"cdf": f(i, 4), "emitter": 50., "deadband": {"hot_water": 5, "space": 1 + i}}),
    "tpm": ("times", "load_tpm", "_parse_tpm", TIMED, True, False, True, lambda i: (tpm(i), np.array(["at_home", "away"]), f(i, 2), {"legend": i})),
    "tpm_duration": ("times", "load_tpm_with_duration", "_parse_tpm_with_duration", TIMED, True, False, True,
                     lambda i: (tpm(i), f(i, 2, 2, 3), np.array(["x", "y"]), f(i, 2), f(i + 1, 2, 3), {"legend": [i]})),
    "sparse": ("times", "load_sparse_tpm", "_parse_sparse_tpm", TIMED, True, False, True,
               lambda i: (sparse(i), np.array(["11", "21", "22"]), np.array(["a"]), f(i, 3), {"legend": i})),
    "activity_profiles": ("times", "load_activity_probability_profiles", "_parse_activity_profiles", TIMED, True, False, True, lambda i: {"tv": f(i, 4, 2), "cook": f(i + 1, 4, 2)}),
    "starts": ("times", "load_daily_activity_starts", "_parse_daily_activity_starts", TIMED, True, False, True, lambda i: {"tv": f(i, 4), "cook": f(i, 2)}),
    "durations": ("times", "load_activity_duration", "_parse_activity_duration", TIMED, True, False, True, lambda i: {"tv": f(i, 2), "cook": f(i, 5)}),
    "probabilities": ("times", "load_activity_probabilities", "_parse_activity_probabilities", TIMED, True, False, True, lambda i: {"tv": f(i, 6), "cook": f(i, 6)}),
    "ninja": ("ninja", None, None, [["germany", "switzerland"], ["DE", "CH"]], True, False, False, None),
    "gtou": ("gtou", None, None, NONE, False, False, False, None),
    "tracebase": ("tracebase", None, None, NONE, False, False, False, None),
    "crest_tpm": ("crest", None, None, [[{"n_residents": 1, "weekday": [6, 7]}, {"n_residents": 1, "weekday": [1, 2, 3, 4, 5]}],
                                        [{"n_residents": 1, "weekday": [6, 7]}, {"n_residents": 2, "weekday": [6, 7]}]], True, False, True, None),
}
VERSIONS = {
    "home": [("v", ["v1", "v2"]), ("v", ["v0.1", "v0.11"]), ("none", [None, "v1"]), ("none", ["v1", None])],
    "times": [("v", ["v1", "v2"]), ("none", [None, "v1"]), ("act", ["4_States", "Sparse9States"]), ("act", ["DemodActivities_0", "DemodActivities_01"])],
    "ninja": [("ninja", ["population", "land_area"])], "gtou": [("gtou", ["4_States", "Sparse9States"])], "tracebase": [("trace", [60, 10])],
    "crest": [("v", ["2.2", "2.3.3"])],
}
counter = itertools.count()


class RawMissing(Exception):
    pass


class Shelf:
    """One dataset folder, the items in it, and loader instances on it."""

    def __init__(self, kind, rng, versions=None, keys=None):
        self.kind, self.rng = kind, rng
        self.cls, self.load_name, self.parse_name, pools, self.keyed, self.timeless, self.arrays, self.value = KINDS[kind]
        self.mode, self.versions = versions or rng.choice(VERSIONS[self.cls])
        self.keys = keys or rng.choice(pools)
        self.name = "Scratch%d_%d" % (os.getpid(), next(counter))
        os.mkdir(os.path.join(HERE, self.name))
        self.parses = []
        self.fate = "ok"
        self.kept = {}
        self.gen = {i: 0 for i in self.ids()}
        self.raw = {}
        self.make_class()

    # items
    def id(self, v, k):
        return (v - 1) * 2 + (k if self.keyed and self.keys[0] != self.keys[1] else 1)

    def ids(self):
        return sorted({self.id(v, k) for v in (1, 2) for k in (1, 2)})

    def parsed_id(self, loader, key):
        v = self.versions.index(self.where(loader)) + 1
        if not self.keyed:
            return self.id(v, 1)
        if isinstance(key, dict):
            key = dict(key)
            if self.timeless:
                key.pop("weekday", None), key.pop("quarter", None)
        return self.id(v, self.keys.index(key) + 1) if key in self.keys else WRONG

    def where(self, loader):
        v = loader.activity_type if self.mode == "act" else loader.version
        return v.lstrip("v_") if self.cls == "crest" else v

    def parse(self, loader, key=None):
        i = self.parsed_id(loader, key)
        self.parses.append(i)
        if self.fate == "fail":
            raise RawMissing("the raw data cannot be parsed")
        return self.value(i)

    # classes
    def make_class(self):
        shelf = self
        if self.cls in ("home", "times"):
            B = base_loader
            bases = ((B.ApplianceLoader, B.LightingLoader, B.HeatingLoader, B.PopulationLoader, B.ClimateLoader) if self.cls == "home"
                     else (tou_loader.LoaderTOU,))
            self.C = type("Scratch", bases, {"DATASET_NAME": self.name, self.parse_name: lambda self_, *a, **k: shelf.parse(self_, *a, **k)})
        elif self.cls == "ninja":
            from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate as N
            code = {"germany": "DE", "switzerland": "CH", "DE": "DE", "CH": "CH"}

            def parse(self_):
                i = shelf.id(shelf.versions.index(self_._w) + 1, shelf.keys.index(self_.country) + 1)
                shelf.parses.append(i)
                if shelf.fate == "fail":
                    raise RawMissing("the raw data cannot be parsed")
                return N._parse_historical_climate_data(self_)
            self.C = type("Scratch", (N,), {"DATASET_NAME": self.name, "_parse_historical_climate_data": parse})
            for v in (1, 2):
                for k in (1, 2):
                    self.raw["%s_merra-2_%s" % (code[self.keys[k - 1]], self.versions[v - 1])] = (v, k)
        elif self.cls == "gtou":
            from demod.datasets.GermanTOU.loader import GTOU as G

            def parse(self_, *a):
                shelf.parses.append(WRONG)
                raise RawMissing("no raw data")
            self.C = type("Scratch", (G,), {"DATASET_NAME": self.name, "_parse_tpm": parse, "_raw_file_exists": lambda self_: False})
        elif self.cls == "tracebase":
            from demod.datasets.tracebase.loader import Tracebase as T

            def parse(self_, kind):
                shelf.parses.append(shelf.id(shelf.versions.index(int(self_.step_size.total_seconds())) + 1, 1))
                if shelf.fate == "fail":
                    raise RawMissing("the raw data cannot be parsed")
                return T._parse_real_profiles_dict(self_, kind)
            self.C = type("Scratch", (T,), {"DATASET_NAME": self.name, "_parse_real_profiles_dict": parse})
        elif self.cls == "crest":
            from demod.datasets.CREST.loader import Crest

            def parse(self_, sg):
                i = shelf.parsed_id(self_, sg)
                shelf.parses.append(i)
                if shelf.fate == "fail":
                    raise RawMissing("the raw data cannot be parsed")
                return shelf.want(i)
            self.C = type("Scratch", (Crest,), {"DATASET_NAME": self.name, "_parse_tpm": parse})

    def urlopen(self, req, *a, **k):
        url = req if isinstance(req, str) else req.full_url
        if self.fate == "fail":
            raise RawMissing("no network")
        if self.cls == "ninja":
            for name, (v, k) in self.raw.items():
                if name in url:
                    i = self.id(v, k)
                    s = "# a\n# b\ntime,precipitation,snowfall,snow_mass,cloud_cover,air_density,temperature,irradiance_surface,irradiance_toa\n"
                    s += "".join("2019-01-01 %02d:00:00,1,2,3,4,5,%d,7,%d\n" % (h, i + 10 * self.gen[i], h) for h in range(12))
                    return io.BytesIO(s.encode())
        if self.cls == "gtou":
            t = url.split("/")[-1].split(".zip")[0]
            i = self.id(self.versions.index(t) + 1, 1)
            self.parses.append(i)
            z = io.BytesIO()
            with zipfile.ZipFile(z, "w") as zf:
                for n in (1, 2):
                    b = io.BytesIO()
                    np.savez(b, tpm=tpm(i + n), labels=np.array(["a", "b"]), initial_pdf=f(i + n, 2))
                    zf.writestr("n_residents_%d.npz" % n, b.getvalue())
            return io.BytesIO(z.getvalue())
        if self.cls == "tracebase":
            z = io.BytesIO()
            with zipfile.ZipFile(z, "w") as zf:
                for t, n, c in (("WaterKettle", "dev_1.csv", 6), ("WaterKettle", "dev_2.csv", 12), ("Iron", "dev_3.csv", 18)):
                    s = "".join("01/02/2012 00:%02d:%02d;%d;0\n" % (m // 60, m % 60, c) for m in list(range(0, 591, 10)) + [595])
                    zf.writestr("tracebase-master/complete/%s/%s" % (t, n), s)
            return io.BytesIO(z.getvalue())
        return io.BytesIO(b"raw")

    def want(self, i):
        """The value of item i, as a load must give it."""
        if self.cls == "ninja":
            t = np.array(["2019-01-01T%02d:00:00" % h for h in range(12)], dtype="datetime64")
            o = np.ones(12)
            return {"datetime": t, "precipitation": o, "snowfall": 2 * o, "snow_mass": 3 * o, "clearness": 4 * o, "air_density": 5 * o,
                    "outside_temperature": (i + 10 * self.gen[i]) * o, "irradiance": 7 + np.arange(12.)}
        if self.cls == "gtou":
            return [(tpm(i + n), np.array(["a", "b"]), f(i + n, 2)) for n in (1, 2)]
        if self.cls == "tracebase":
            s = self.versions[(i + 1) // 2 - 1]
            a = lambda c: np.append(np.full(595 // s, float(c)), c * (595 % s) / s)
            return {"kettle": {"dev_1.csv": a(6), "dev_2.csv": a(12)}, "iron": {"dev_3.csv": a(18)}}
        if self.cls == "crest":
            return tpm(i), np.array(["00", "10"]), f(i, 2)
        v = self.value(i)
        return v[:-1] if self.cls == "times" and isinstance(v, tuple) else v

    def decode(self, r):
        d = digest(r, self.arrays)
        for i in self.ids():
            w = self.want(i)
            if self.arrays and isinstance(w, dict):      # arrays are promised where lists were parsed
                w = {k: (np.asarray(x) if isinstance(x, (list, pd.Series)) else x) for k, x in w.items()}
            ok = d == digest(w, self.arrays)
            if ok:
                return i
        return WRONG

    # instances and loads
    def make(self, v, **kw):
        ver = self.versions[v - 1]
        urllib.request.urlopen = self.urlopen
        if self.cls == "home":
            return self.C(version=ver, **kw)
        if self.cls == "times":
            return self.C(ver, **kw) if self.mode == "act" else self.C("4_States", version=ver, **kw)
        if self.cls == "gtou":
            return self.C(ver, **kw)
        if self.cls == "tracebase":
            return self.C(step_size=datetime.timedelta(seconds=ver), **kw)
        if self.cls == "crest":
            return self.C(ver, **kw)

    def key(self, k):
        key = self.keys[k - 1]
        if isinstance(key, dict):
            key = dict(key)
            if self.timeless:
                key.update(self.rng.choice(WEEK))
            items = list(key.items())
            self.rng.shuffle(items)
            key = dict((a, list(b) if isinstance(b, list) else b) for a, b in items)
            if self.rng.random() < .5:
                key = Subgroup(key)
        return key

    def ninja(self, v, k, **kw):
        urllib.request.urlopen = self.urlopen
        o = self.C.__new__(self.C)
        o._w = self.versions[v - 1]
        o.__init__(self.keys[k - 1], weighted_type=o._w, **kw)
        return o

    def load(self, v, k, new=True):
        """In this process. Returns the id of what came, or RAISED."""
        try:
            urllib.request.urlopen = self.urlopen
            if self.cls == "ninja":
                o = self.ninja(v, k) if new or (v, k) not in self.kept else self.kept[v, k]
                self.kept[v, k] = o
                return self.decode(o.load_historical_climate_data(datetime.datetime(2019, 1, 1)))
            if new or v not in self.kept:
                self.kept[v] = self.make(v)
            o = self.kept[v]
            if self.cls == "gtou":
                return self.decode([o.load_tpm({"n_residents": n}) for n in (1, 2)])
            if self.cls == "tracebase":
                return self.decode(o.load_real_profiles_dict("full"))
            if self.cls == "crest":
                return self.decode(o.load_tpm(self.key(k)))
            m = getattr(o, self.load_name)
            return self.decode(m(self.key(k)) if self.keyed else m())
        except Exception as e:
            self.why = "%s: %s" % (type(e).__name__, e)
            return RAISED

    def taken(self):
        p, self.parses = self.parses, []
        return p


# ------------------------------------------------------------------ stops
def forked(job, before, wait=30):
    """job() in a forked process, its result as JSON, or None when the process was stopped."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            before()
            out = json.dumps(job()).encode()
            globals()["hook"] = None
            while out:
                out = out[os.write(w, out):]
        except BaseException as e:
            os.write(2, ("child: %r\n" % (e,)).encode())
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    end = time.time() + wait
    while True:
        ok, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 65536)
        if not c:
            break
        b += c
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b) if b else None


def stop_at(n, every):
    """Stop the process before the n-th file operation (every: reads count too)."""
    left = [n]

    def h(kind, path):
        if kind == "w" or every:
            left[0] -= 1
            if left[0] < 0:
                os._exit(9)
    return lambda: globals().__setitem__("hook", h)


def stop_open(n):
    """Stop the process as soon as the n-th file it opens for writing is there."""
    left = [n]
    real = open

    def opened(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        if any(c in mode for c in "wax+") and not isinstance(file, int) and _inside(file, HERE):
            left[0] -= 1
            if left[0] < 0:
                os._exit(9)
        return f

    def b():
        builtins.open = io.open = opened
    return b


def full_at(n, kill):
    def b():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return b


def add(t, s, v, k, fate, res, parsed):
    t.add("load", i=s.id(v, k), fate=fate, res=res, parsed=parsed, why=getattr(s, "why", "") if res == RAISED else "")


def away(s, v, k, before, new=True):
    """A load in a process of its own: (was stopped, result, parsed)."""
    def job():
        s.parses = []
        r = s.load(v, k, new)
        return [r, s.taken(), getattr(s, "why", "")]
    x = forked(job, before)
    if x is None:
        return True, 0, []
    s.why = x[2]
    return False, x[0], x[1]


def plain(t, s, v, k, new=True):
    s.taken()
    r = s.load(v, k, new)
    add(t, s, v, k, "ok", r, s.taken())


def together(s, who, turns, wait=2.):
    """Loads (v, k) of several processes, interleaved at their file operations as the turns say. Returns [(res, parsed, why)]."""
    P = []
    for v, k in who:
        gr, gw = os.pipe()       # go
        sr, sw = os.pipe()       # says: 'o' before an operation; then the result
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                os.close(gw), os.close(sr)

                def h(kind, path):
                    os.write(sw, b"o")
                    if os.read(gr, 1) == b"":
                        os._exit(9)
                globals()["hook"] = h
                s.parses = []
                r = s.load(v, k)
                globals()["hook"] = None
                os.write(sw, b"=" + json.dumps([r, s.taken(), getattr(s, "why", "")]).encode())
            finally:
                os._exit(0)
        os.close(gr), os.close(sw)
        P.append({"pid": pid, "go": gw, "says": sr, "out": b"", "end": False, "at": False})

    def until(p, limit):
        """Wait until the process stands before an operation, has ended, or blocks."""
        end = time.time() + limit
        while not p["end"] and not p["at"]:
            ok, _, _ = select.select([p["says"]], [], [], max(0, end - time.time()))
            if not ok:
                return
            c = os.read(p["says"], 65536)
            if c == b"":
                p["end"] = True
            elif p["out"] or c[:1] == b"=":
                p["out"] += c
            else:
                rest = c.lstrip(b"o")
                if rest:
                    p["out"] += rest
                else:
                    p["at"] = True
    for p in P:
        until(p, 10)
    n = 0
    ops = 0
    stuck = 0
    while any(not p["end"] for p in P) and stuck < 6:
        j = (turns[n] - 1) % len(P) if n < len(turns) else n % len(P)
        n += 1
        p = P[j]
        if p["end"]:
            continue
        if p["at"]:
            p["at"] = False
            os.write(p["go"], b"g")
            ops += 1
        until(p, wait if ops < 400 else .01)
        stuck = stuck + 1 if not p["end"] and not p["at"] else 0
    res = []
    for p in P:
        os.close(p["go"])
        if not p["end"]:
            os.kill(p["pid"], signal.SIGKILL)
        os.close(p["says"])
        os.waitpid(p["pid"], 0)
        x = json.loads(p["out"][1:]) if p["out"][:1] == b"=" else [RAISED, [], "did not end"]
        res.append(x)
    return res


def history(rec, kind, h, rng):
    s = Shelf(kind, rng)
    with rec.trace("%s history" % kind, kind=kind, versions=[str(v) for v in s.versions], keys=[str(k) for k in s.keys], steps=str(h)) as t:
        for x in h:
            if x["op"] == "clear":
                clear(t, s, x["v"], rng)
                continue
            v, k, fate, new = x["v"], x["k"], x["fate"], x["new"]
            if fate == "ok":
                if rng.random() < .8:
                    plain(t, s, v, k, new)
                else:
                    st, r, p = away(s, v, k, lambda: None, new)
                    add(t, s, v, k, "ok", r if not st else RAISED, p)
            elif fate == "fail":
                s.fate = "fail"
                s.taken()
                r = s.load(v, k, new)
                s.fate = "ok"
                add(t, s, v, k, "fail", r, s.taken())
            elif fate == "stop":
                b = stop_at(rng.randrange(14), rng.random() < .3) if rng.random() < .7 else full_at(rng.choice(LIMITS), True)
                st, r, p = away(s, v, k, b, new)
                add(t, s, v, k, "stop" if st else "ok", r, p)
            else:
                st, r, p = away(s, v, k, full_at(rng.choice(LIMITS), False), new)
                add(t, s, v, k, "full", r, p)
        for v in (1, 2):
            for k in (1, 2):
                plain(t, s, v, k, True)


def clear(t, s, v, rng):
    ids, says = [s.id(v, k) for k in (1, 2)], []
    s.taken()
    if s.cls == "ninja":
        # new raw data of one country and weighting
        k = rng.choice((1, 2))
        i = s.id(v, k)
        s.gen[i] += 1
        try:
            s.ninja(v, k, update_raw_data=True)
            res = 1
        except Exception as e:
            res, s.why = RAISED, "%s: %s" % (type(e).__name__, e)
        t.add("clear", ids=[i], again=sorted(set(s.taken())), asked=0, answers=0, res=res, why=getattr(s, "why", "") if res == RAISED else "")
        return
    if s.mode == "act" or s.versions[v - 1] is None:
        # without a version, everything goes, and the user is asked
        says = rng.choice([["yes"], ["no"], ["", "maybe", "no"], ["perhaps", "yes"]])
        ids = list(s.ids()) if says[-1] == "yes" else []
    it = iter(says)
    old = builtins.input
    builtins.input = lambda *a: next(it)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        s.make(v, clear_parsed_data=True)
        res = 1
    except Exception as e:
        res, s.why = RAISED, "%s: %s" % (type(e).__name__, e)
    finally:
        builtins.input = old
        sys.stdout = out
    # a loader may store what it needs at once when it is made
    t.add("clear", ids=sorted(set(ids)), again=sorted(set(s.taken())), asked=len(says) - len(list(it)), answers=len(says), res=res, why=getattr(s, "why", "") if res == RAISED else "")


LIMITS = [0, 1, 2, 7, 17, 40, 63, 64, 65, 100, 127, 128, 129, 150, 200, 260, 300, 400, 600, 900, 1200, 1700]


def sizes(s):
    out = []
    for d, _, fs in os.walk(os.path.join(HERE, s.name)):
        out += [os.path.getsize(os.path.join(d, x)) for x in fs]
    return out


def sweep(rec, kind, rng, n_limits):
    """One stop at every file operation, and at bytes of the files."""
    s = Shelf(kind, rng)
    with rec.trace("%s whole" % kind, kind=kind) as t:
        plain(t, s, 1, 1)
        plain(t, s, 1, 1, False)
        plain(t, s, 1, 1)
    lim = sizes(s)
    lim = sorted({x for z in lim for x in (0, 1, z // 2, z - 1, z)} | {rng.choice(LIMITS) for _ in range(4)})
    if len(lim) > n_limits:
        lim = sorted(rng.sample(lim, n_limits))
    for every in (False,):
        n = 0
        while n < 60:
            s = Shelf(kind, rng)
            with rec.trace("%s stopped before operation %d" % (kind, n), kind=kind) as t:
                st, r, p = away(s, 1, 1, stop_at(n, every))
                add(t, s, 1, 1, "stop" if st else "ok", r, p)
                if n % 3 == 2:
                    st2, r, p = away(s, 1, 1, stop_at(rng.randrange(12), False))
                    add(t, s, 1, 1, "stop" if st2 else "ok", r, p)
                plain(t, s, 1, 1)
                plain(t, s, 1, 1)
            if not st:
                break
            n += 1
    n = 0
    while n < 30:
        s = Shelf(kind, rng)
        with rec.trace("%s stopped when file %d was opened" % (kind, n), kind=kind) as t:
            st, r, p = away(s, 1, 1, stop_open(n))
            add(t, s, 1, 1, "stop" if st else "ok", r, p)
            plain(t, s, 1, 1)
            plain(t, s, 1, 1)
        if not st:
            break
        n += 1
    for b in lim:
        for kill in (True, False):
            s = Shelf(kind, rng)
            with rec.trace("%s %s at byte %d" % (kind, "stopped" if kill else "disk full", b), kind=kind) as t:
                st, r, p = away(s, 1, 1, full_at(b, kill))
                add(t, s, 1, 1, "stop" if st else "full", r, p)
                plain(t, s, 1, 1)
                plain(t, s, 1, 1, False)


def meet(rec, kind, turns, rng, n=2):
    s = Shelf(kind, rng)
    who = [(1, 1)] * n if rng.random() < .7 else [(1, 1), (1, 2), (2, 1)][:n]
    with rec.trace("%s together" % kind, kind=kind, turns=str(turns)) as t:
        if rng.random() < .15:
            plain(t, s, 1, 1)
        out = together(s, who, turns)
        t.add("together", loads=[{"i": s.id(v, k), "res": x[0], "parsed": x[1]} for (v, k), x in zip(who, out)], why=str([x[2] for x in out]))
        for v, k in sorted(set(who)):
            plain(t, s, v, k)


class Wall:
    """Several kinds of items in one dataset folder."""

    def __init__(self, kinds, rng):
        self.rng = rng
        first = Shelf(kinds[0], rng)
        self.shelves = [first]
        for k in kinds[1:]:
            s = Shelf(k, rng, versions=(first.mode, first.versions))
            s.name = first.name
            s.make_class()
            self.shelves.append(s)
        # the same subgroups for all kinds that have some
        sg = rng.choice(SUBGROUPS)
        for s in self.shelves:
            if isinstance(s.keys[0], dict):
                s.keys = sg
                s.gen = {i: 0 for i in s.ids()}


def mixed(rec, rng, kinds):
    """Items of several kinds, for the same subgroups, versions and activity types, in one dataset."""
    w = Wall(kinds, rng)
    off = 100
    with rec.trace("mixed", kinds=kinds, keys=[str(s.keys) for s in w.shelves]) as t:
        todo = [(j, v, k) for j in range(len(kinds)) for v in (1, 2) for k in (1, 2)] * 2
        rng.shuffle(todo)
        for j, v, k in todo:
            s = w.shelves[j]
            s.taken()
            r = s.load(v, k, rng.random() < .5)
            p = s.taken()
            shift = lambda x: x + off * j if x > 0 else x
            t.add("load", i=shift(s.id(v, k)), fate="ok", res=shift(r), parsed=[shift(x) for x in p], why=getattr(s, "why", "") if r == RAISED else "")


# items of one loader (dense and sparse matrices are never parsed for the same activity type)
FAMILIES = [["population", "appliances", "profiles", "ownership", "switchons", "consumption", "duration", "clearness", "arma", "geo", "fisher",
             "crest_lighting", "bulbs", "bulbs_config", "bulbs_stats", "buildings", "heating_system", "thermostat"],
            ["tpm", "tpm_duration", "activity_profiles", "starts", "durations", "probabilities"],
            ["sparse", "tpm_duration", "activity_profiles", "starts", "durations", "probabilities"]]


def climate(rec, rng, n):
    """Which part of the stored climate a start gives."""
    for _ in range(n):
        s = Shelf("geo", rng)
        times = sorted(rng.sample(range(0, 40), rng.randrange(1, 7)))
        base = datetime.datetime(2019, 1, 1)
        C = type("C", (base_loader.ClimateLoader,), {"DATASET_NAME": s.name, "step_size": datetime.timedelta(minutes=1)})
        unit = rng.choice(["datetime64[ns]", "datetime64[s]", "datetime64[m]"])
        C._parse_historical_climate_data = lambda self: {
            "datetime": np.array([base + datetime.timedelta(minutes=30 * x) for x in times], dtype=unit), "outside_temperature": np.array(times, float)}
        with rec.trace("climate parts", kind="climate", times=times) as t:
            o = C(version="v")
            for start in rng.sample(range(-3, 45), 8):
                m = base + datetime.timedelta(minutes=30 * start)
                if rng.random() < .4:
                    off = rng.choice([-5, 1, 2, 10])
                    m = (m + datetime.timedelta(hours=off)).replace(tzinfo=datetime.timezone(datetime.timedelta(hours=off)))
                try:
                    r = o.load_historical_climate_data(m)
                    got = [int(round((np.datetime64(x, "s") - np.datetime64(base, "s")).astype(int) / 1800)) for x in r["datetime"]]
                    val = [int(x) for x in r["outside_temperature"]]
                    t.add("part", start=start, got=got, val=val, refused=False)
                except ValueError:
                    t.add("part", start=start, got=[], val=[], refused=True)
                if rng.random() < .3:
                    o = C(version="v")


def run(rec, inp, tier, seed):
    rng = random.Random(seed)
    for kind in inp["kinds"]:
        sweep(rec, kind, rng, inp["limits"])
    for h in inp["histories"]:
        history(rec, rng.choice(inp["kinds"]), h["h"], rng)
    for h in inp["turns"]:
        meet(rec, rng.choice(inp["kinds"]), h["t"], rng, 2 if rng.random() < .8 else 3)
    for _ in range(inp["mixed"]):
        fam = rng.choice(FAMILIES)
        ks = rng.sample(fam, rng.randrange(2, len(fam) + 1))
        mixed(rec, rng, ks)
    climate(rec, rng, inp["climate"])


main(run)
