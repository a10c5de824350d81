"""Appliance simulators on made-up appliances: every draw of a step gets the same scripted number, so that the
specification knows what each step must do; and runs with real draws, judged by what holds for every draw."""
import copy
import datetime as dt
import random
import warnings
import numpy as np
from same import Same
from vf import main, q, qr, ql, qm
from demod.simulators.appliance_simulators import (
    OccupancyApplianceSimulator, ActivityApplianceSimulator, ProbabiliticActivityAppliancesSimulator)

warnings.simplefilter("ignore")
Q = 8
EPOCH = dt.datetime(1970, 1, 1)


def minutes(t):
    return int((t.replace(tzinfo=None) - EPOCH).total_seconds()) // 60


class Data:
    """The loader of the made-up appliances."""
    step_size = dt.timedelta(minutes=1)

    def __init__(self, apps, refresh, profiles, own_probs, targets, npdf=144):
        self.apps, self.profiles, self.own_probs, self.targets, self.npdf = apps, profiles, own_probs, targets, npdf
        self.refresh_time = dt.time(refresh // 60, refresh % 60)

    def load_appliance_dict(self):
        a = self.apps
        col = lambda k, ty=None: np.array([x[k] for x in a], dtype=ty)
        return {
            "number": len(a), "name": col("name"), "type": col("type"), "related_activity": col("act"),
            "equipped_prob": col("equipped", float), "inactive_switch_off": col("inoff", bool),
            "mean_elec_consumption": col("mean", float), "standby_consumption": col("std", float),
            "mean_water_consumption": col("mw", float), "uses_water": col("water", bool),
            "mean_duration": np.array([x["dur"] / Q for x in a], dtype=float), "after_cycle_delay": col("delay", int),
            "poisson_sampling_lambda_liters": np.array([4. if x["water"] else 0. for x in a]),
            "switch_on_prob_crest": np.array([x["sp"] / 8 for x in a]),
            "probabilistic": col("probabilistic", bool), "previous_activity": col("pact"),
            "previous_appliance_type": col("ptype"), "target_cycle_year": np.array([x["target"] for x in a], dtype=float),
        }

    def load_real_profiles_dict(self, kind):
        return {ty: {"p%d" % i: np.array(p, dtype=float) for i, p in enumerate(ps)} for ty, ps in self.profiles.get(kind, {}).items()}

    def load_appliance_ownership_dict(self, subgroup={}):
        return dict(self.own_probs[subgroup["sg"]])

    def load_activity_probability_profiles(self, subgroup={}, activity=None):
        acts = sorted({x["act"] for x in self.apps})
        w = 5 if subgroup.get("weekday") == [6, 7] else 0
        s = np.arange(self.npdf)[:, None] + np.arange(5)[None, :]
        return {a: ((s + 2 * subgroup["sg"] + 3 * i + w) % 9) / 8. for i, a in enumerate(acts)}

    def load_yearly_target_switchons(self, subgroup={}):
        return dict(self.targets)

    def load_activity_probabilities(self, subgroup={}):
        return {a: np.full(144, .5) for a in self.acts()}

    def load_daily_activity_starts(self, subgroup={}):
        return {a: np.array([0., 1.]) for a in self.acts()}

    def acts(self):
        return sorted({x["act"] for x in self.apps} | {x["pact"] for x in self.apps if x["pact"] != "nan"} - {"nan"})


TARGET = {0: 0., 64: 100., 128: 1e12}


def make_apps(rnd, kind, n):
    """Appliances with all kinds of durations, delays and relations."""
    acts = rnd.sample(["cook", "wash", "iron", "tv"], rnd.randint(2, 4))
    apps = []
    for i in range(n):
        water = rnd.random() < .3
        a = {"name": "N%d" % i, "type": "t%s" % "abcdefghijk"[i], "act": rnd.choice(acts), "equipped": rnd.choice([0., 1., 1.]),
             "inoff": rnd.random() < .5, "mean": rnd.randint(5, 900), "std": rnd.choice([0, 1, 3, 7]), "water": water,
             "mw": rnd.choice([1, 2, 4, 8]) if water else 0,
             "dur": rnd.choice([4, 8, 12, 16, 20, 24, 40, 0]), "delay": rnd.choice([0, 0, 1, 2, 3, 7, 20]),
             "sp": rnd.choice([0, 1, 4, 8, 8]), "probabilistic": kind != "act", "pact": "nan", "ptype": "nan", "target": 100.,
             "always": False, "p": rnd.choice([0, 64, 64, 128])}
        if rnd.random() < .15 and not water and kind != "prob":
            a["act"] = rnd.choice(["level", "constant"])
            a["inoff"] = False
        if kind == "prob" and i and rnd.random() < .35:
            if rnd.random() < .5:
                a["pact"] = rnd.choice(acts + ["rest"])
            else:
                b = rnd.choice(apps)
                if TARGET[b["p"]]:
                    a["ptype"] = b["type"]
        a["always"] = a["act"] in ("level", "constant")
        apps.append(a)
    return acts, apps


def make_profiles(rnd, apps, some):
    """Recorded profiles of some types: distinct samples, so that every position shows."""
    prof = {"switchedON": {}, "full": {}}
    for a in apps:
        if not a["water"] and rnd.random() < some:
            k = rnd.randint(1, 3)
            base = rnd.randint(1, 50) * 100
            prof["full" if a["always"] else "switchedON"][a["type"]] = [
                [base + 10 * j + s + 1 for s in range(rnd.choice([2, 3, 5, 9, 4 + j]))] for j in range(k)]
    return prof


KINDS = {"occ": OccupancyApplianceSimulator, "act": ActivityApplianceSimulator, "prob": ProbabiliticActivityAppliancesSimulator}


def observe(sim, kind, nh, na, rnd):
    get = [("usage", lambda: [[bool(x) for x in r] for r in np.asarray(sim.get_current_usage())]),
           ("power", lambda: qm(sim.get_current_power_consumptions(), (nh, na))),
           ("water", lambda: qm(sim.get_current_water_consumptions(), (nh, na), Q)),
           ("demand", lambda: ql(sim.get_power_demand(), nh)), ("gains", lambda: ql(sim.get_thermal_gains(), nh)),
           ("energy", lambda: ql(sim.get_energy_consumption(), nh)), ("dhw", lambda: ql(sim.get_dhw_heating_demand(), nh, Q, f=qr))]
    if rnd.random() < .5:
        rnd.shuffle(get)
    r = {k: f() for k, f in get}
    if np.shape(sim.get_current_usage()) != (nh, na):
        raise ValueError("usage has shape %s" % (np.shape(sim.get_current_usage()),))
    return r


def one(rec, rnd, name, kind, exact, steps, beh=None, seed=0):
    algo = "nothing"
    if beh:
        apps = []
        for i, a in enumerate(beh["apps"]):
            a = dict(a)
            a.update(name="N%d" % i, equipped=1., mean=10 + i, std=i % 2, mw=8 if a["water"] else 0, sp=8, probabilistic=kind != "act",
                     target=100., p=64)
            apps.append(a)
        acts = ["cook", "wash", "iron"]
        prof = {"switchedON": {"machine": [[41, 42]]} if kind == "act" else {}, "full": {}}
        if kind == "act":
            algo = "only_switched_on"
        subs, counts, refresh = [{"sg": 0}], [1], 240
    else:
        acts, apps = make_apps(rnd, kind, rnd.randint(1, 7))
        some = rnd.choice([0, .5, .9])
        prof = make_profiles(rnd, apps, some)
        algo = rnd.choice(["nothing", "uniform", "only_always_on", "only_switched_on", "uniform"]) if some else "nothing"
        m = rnd.randint(1, 3)
        subs = [{"sg": i} for i in range(m)]
        counts = [rnd.randint(1, 3) for _ in range(m)]
        refresh = rnd.choice([240, 240, 0, 300])
    sub = [s["sg"] for s, c in zip(subs, counts) for _ in range(c)]
    nh = len(sub)
    own_probs = [{a["type"]: float(beh is not None or rnd.random() < .75) for a in apps} for _ in subs]
    targets = {a["type"]: TARGET[a["p"]] * (.5 if a["ptype"] != "nan" and (beh or rnd.random() < .5) else 1) for a in apps}
    data = Data(apps, refresh, prof, own_probs, targets)
    extra = []
    if kind != "occ" and not beh and rnd.random() < .4:    # an appliance this simulator must leave to another one
        x = dict(apps[0], name="X", type="tx", pact="nan", ptype="nan")
        if rnd.random() < .5:
            x["probabilistic"] = not x["probabilistic"]
        else:
            x["act"] = "unknown"
        extra = [x]
        data.apps = apps[:1] + extra + apps[1:]
        for o in own_probs:
            o["tx"] = 1.0
        data.targets["tx"] = 100.
    equip = "subgroup" if beh else rnd.choice(["subgroup", "subgroup", "all", "basic", "set_defined"])
    kw = {}
    if equip == "set_defined":
        sets = [[a["name"] for a in apps if rnd.random() < .7] for _ in subs]
        kw["equipped_set_defined"] = sets
        want = [[a["name"] in sets[s] for a in apps] for s in sub]
    elif equip == "subgroup":
        want = [[own_probs[s][a["type"]] == 1. for a in apps] for s in sub]
    elif equip == "all":
        want = [[True] * len(apps) for _ in sub]
    else:
        want = [[a["equipped"] == 1. for a in apps] for _ in sub]
    start = EPOCH + dt.timedelta(days=rnd.choice([16435, 16436, 16438, 16494]), minutes=refresh)
    n = 0
    if not beh:
        start += dt.timedelta(minutes=rnd.choice([0, 0, 1, 9, 10, 37, 65] + ([1430, 600] if not exact or kind != "occ" else [])))
    if kind == "occ":
        n = minutes(start) % 1440 - refresh
        if n < 0:
            n += 1440
    same = Same()
    same.k = 0 if beh else rnd.choice([0, 1, 2, 5, 11])
    hhact = lambda: [(a, [rnd.choice([0, 0, 1, 2]) for _ in range(nh)]) for a in acts + (["rest"] if kind == "prob" else [])]
    stick = 0 if beh else rnd.choice([0, .5, .8])
    now = [(a, [0] * nh) for a in acts] if beh else hhact()
    occ = [rnd.randint(0, 3) for _ in range(nh)] if not beh else [1]
    buffers = {a: np.array(x) for a, x in now}
    reuse = rnd.random() < .3          # the caller updates its own arrays in place
    common = dict(start_datetime=start, equipped_sampling_algo=equip, real_profiles_algo=algo, **kw)
    cfg = dict(kind=kind, exact=exact, nh=nh, refresh=refresh, sub=sub, k=same.k, want=want,
               apps=[{k: a[k] for k in ("act", "dur", "delay", "inoff", "always", "type", "pact", "ptype", "water", "mean", "std", "mw")} for a in apps],
               sp=[a["sp"] for a in apps], pos=[a["sp"] > 0 for a in apps],
               ai=[sorted({x["act"] for x in apps}).index(a["act"]) for a in apps],
               prob=[a["p"] for a in apps], wantnames=[a["name"] for a in apps], names=[], own=[], profs=[])
    for i, a in enumerate(apps):     # an appliance that follows another one: its share of that one's uses
        if a["ptype"] != "nan":
            ratio = targets[a["type"]] / targets[a["ptype"]]
            cfg["prob"][i] = 0 if ratio == 0 else 128 if ratio >= 1 else 64
    with rec.trace(name, **cfg) as t:
        if exact:
            same.__enter__()
        else:
            np.random.seed(seed)
        try:
            same.u, same.v = 127, 0
            if kind == "occ":
                sim = OccupancyApplianceSimulator([dict(s) for s in subs], list(counts), data=data,
                                                  initial_active_occupancy=np.array(occ), **common)
            else:
                sim = KINDS[kind](nh, dict(buffers) if reuse else {a: np.array(x) for a, x in now}, data=data,
                                  subgroups_list=[dict(s) for s in subs], n_households_list=list(counts), **common)
            own = np.asarray(sim.available_appliances)
            t.cfg["own"] = [[bool(x) for x in r] for r in own]
            t.cfg["names"] = [str(x) for x in sim.appliances["name"]]
            used = []
            if algo in ("uniform", "only_switched_on"):
                used.append("switchedON")
            if algo in ("uniform", "only_always_on"):
                used.append("full")
            pr = {}
            for u_ in used:
                pr.update(prof[u_])
            if exact:
                t.cfg["profs"] = [[pr[a["type"]][same.k % len(pr[a["type"]])] if a["type"] in pr and own[h][i] else []
                                   for i, a in enumerate(apps)] for h in range(nh)]
            else:
                def which(h, i, a):
                    if a["type"] not in pr or not own[h][i]:
                        return []
                    return pr[a["type"]][int(sim.corresponding_load_id[h, i])]
                t.cfg["profs"] = [[which(h, i, a) for i, a in enumerate(apps)] for h in range(nh)]
            base = dict(m=minutes(start), n=n, u=127, v=0, occ=occ, acts=[[a, x] for a, x in now])
            na = len(apps)
            t.add("ready", **base, **observe(sim, kind, nh, na, rnd))
            for s in range(steps):
                m = minutes(start) + s
                if beh:
                    b = beh["steps"][s]
                    same.u = 0 if b["draw"] else 127
                    same.v = b["v"]
                    if kind == "occ":
                        occ = [b["occ"]]
                        # the made-up profile is zero in some slots: the specification computes which
                    else:
                        now = list(zip(acts, [[x] for x in b["now"]]))
                else:
                    same.u = rnd.choice([0, 0, 127, 127, 40, 64, 100]) if kind == "occ" else rnd.choice([0, 127, 127])
                    same.v = rnd.choice([0, 1, 2, 3, 8, 24])
                    if rnd.random() >= stick:
                        occ = [rnd.choice([0, 1, 1, 2, 3]) for _ in range(nh)]
                        now = hhact()
                if kind == "occ":
                    sim.step(np.array(occ))
                else:
                    if rnd.random() < .2:
                        now = now[::-1]
                    if reuse:
                        for a, x in now:
                            buffers[a][:] = x
                        d = {a: buffers[a] for a, _ in now}
                    else:
                        d = {a: np.array(x) for a, x in now}
                    sim.step(d)
                looked = rnd.random()
                t.add("step", m=m, n=0, u=same.u, v=same.v, occ=list(occ), acts=[[a, list(x)] for a, x in now],
                      **observe(sim, kind, nh, na, rnd))
        finally:
            if exact:
                same.__exit__()
    if exact and same.other:     # the code draws in another way: only what holds for every draw can be judged
        t.cfg["exact"] = False


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    for i, b in enumerate(inp.get("beh", [])):
        one(rec, rnd, "beh%d" % i, b["kind"], True, len(b["steps"]), beh=b)
    for i in range(inp.get("n", 0)):
        kind = ("occ", "act", "prob")[i % 3]
        one(rec, rnd, "%s%d" % (kind, i), kind, True, rnd.choice([12, 25, 40]))
    for i in range(inp.get("free", 0)):
        kind = ("occ", "act", "prob")[i % 3]
        one(rec, rnd, "free-%s%d" % (kind, i), kind, False, rnd.choice([40, 90]), seed=seed % 1000000 + i)


if __name__ == "__main__":
    main(drive)
