"""Driver of C29: appliance ownership and targets by type, equipped households, probabilities of use."""
import copy
import datetime as dt
import random
import warnings

import numpy as np
from same import Same
from vf import main, q, qr, ql, WRONG

from demod.simulators.appliance_simulators import (
    ActivityApplianceSimulator, OccupancyApplianceSimulator, ProbabiliticActivityAppliancesSimulator)
from demod.utils import appliances as ap

warnings.simplefilter("ignore")
Q = 128
J = "_".join
PARTS = ["a", "b", "c", "d", "long", "2", "x1"]


def types(rnd, n):
    pool = [[rnd.choice(PARTS) for _ in range(rnd.randint(1, 3))] for _ in range(max(1, n // 2))]
    pool += [p[1:] for p in pool if len(p) > 1] + [["z"] + p for p in pool]
    return [list(rnd.choice(pool)) for _ in range(n)]


def dictionary(rnd, Ty, top=Q):
    """Entries for some types, some parents and some numbers."""
    D, seen = [], set()
    for ty in Ty + types(rnd, 2):
        k = ty[rnd.randrange(len(ty)):] if rnd.random() < .5 else list(ty)
        for m in range(rnd.randint(0, 3)):
            kk = k + [str(m + 1)] if m else list(k)
            if J(kk) not in seen:
                seen.add(J(kk))
                D.append({"k": kk, "v": rnd.choice([0, top, rnd.randint(0, top)])})
    rnd.shuffle(D)
    return D


def as_dict(D, scale=Q):
    return {J(x["k"]): x["v"] / scale for x in D}


def assign(t, rnd, Ty, D):
    default = [rnd.randint(0, Q) for _ in Ty]
    for f, kw, key in ((ap.get_ownership_from_dict, {}, "equipped_prob"), (ap.get_target_from_dict, {"default_key": "goal"}, "goal"),
                       (ap.get_target_from_dict, {}, "target_switchons")):
        apps = {"number": len(Ty), "type": np.array([J(x) for x in Ty]) if rnd.random() < .7 else [J(x) for x in Ty],
                key: np.array(default) / Q}
        d = as_dict(D)
        before = copy.deepcopy((apps, d))
        got = ql(f(apps, d, **kw), len(Ty), Q)
        t.add("assign", Ty=Ty, D=D, got=got, same=equal(before, (apps, d)), **{"def": default})
    for ty in Ty:
        K = [x["k"] for x in D]
        keys = [J(k) for k in K]
        got = ap.find_closest_type(J(ty), rnd.choice([keys, dict.fromkeys(keys), np.array(keys) if keys else keys]))
        t.add("closest", ty=ty, K=K, got=got.split("_") if isinstance(got, str) else [])


def equal(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    return a == b


def split(t, p, n, one):
    try:
        got = [q(x, one) for x in ap.assign_ownership_from_prob1_and_number(p / one, n / one)]
        t.add("split", p=p, n=n, One=one, got=got, refused=False)
    except ValueError:
        t.add("split", p=p, n=n, One=one, got=[], refused=True)


def merge(t, rnd):
    cols = ["type", "mean", "flag", "only_a", "only_b"]

    def one(skip):
        n = rnd.randint(0 if rnd.random() < .1 else 1, 4)
        return {"number": n, "cols": {c: [rnd.randint(0, 9) for _ in range(n)] for c in rnd.sample(cols, 5) if c not in (skip, rnd.choice(cols))}}
    A, B = one("only_b"), one("only_a")
    make = lambda x: dict([("number", x["number"])] + [(c, np.array(v, int)) for c, v in x["cols"].items()])
    a, b = make(A), make(B)
    before = copy.deepcopy((a, b))
    r = ap.merge_appliance_dict(a, b)
    t.add("merge", A=A, B=B, same=equal(before, (a, b)), got={"number": q(r["number"]), "cols": {c: ql(v) for c, v in r.items() if c != "number"}})


# ------------------------------------------------------------------ equipped households
class Data:
    step_size = dt.timedelta(minutes=1)
    refresh_time = dt.time(4)

    def __init__(self, apps, own, targets, acts, share, perday, rnd):
        self.apps, self.own, self.targets, self.acts, self.share, self.perday, self.rnd = apps, own, targets, acts, share, perday, rnd

    def load_appliance_dict(self):
        return self.apps

    def load_appliance_ownership_dict(self, subgroup={}):
        return self.own[subgroup["sg"]]

    def load_yearly_target_switchons(self, subgroup={}):
        return self.targets[subgroup["sg"]]

    def load_activity_probabilities(self, subgroup={}):
        return {a: np.array([m / 16 + d for d in (.03125, -.03125) * 72]) if 0 < m < 16 else np.full(144, m / 16)
                for a, m in zip(self.acts, self.share[subgroup["sg"]])}

    def load_daily_activity_starts(self, subgroup={}):
        r = {}
        for a, k in zip(self.acts, self.perday[subgroup["sg"]]):
            r[a] = np.array([0.] * k + [1.]) if k != 2 else np.array([.25, .25, 0, .25, .25])
        return r

    def load_activity_probability_profiles(self, subgroup={}, activity=None):
        return {a: np.zeros((144, 7)) for a in set(self.acts) | {"level"}}

    def load_real_profiles_dict(self, kind):
        return {}


def equip(t, rnd):
    n = rnd.randint(1, 7)
    Ty = types(rnd, n)
    subs = rnd.randint(1, 3)
    counts = [rnd.randint(0, 3) for _ in range(subs)]
    if sum(counts) == 0:
        counts[0] = 1
    acts = rnd.sample(["cook", "wash", "tv", "iron"], rnd.randint(1, 4))
    tynames = [J(x) for x in Ty]
    kind = rnd.choice(["prob", "prob", "act", "occ"])
    pact = [rnd.choice(acts + ["nan"] * 3 + ["else"]) if kind == "prob" else "nan" for _ in Ty]
    ptype = [rnd.choice(tynames + ["nan"] * 4 + ["nothing"]) if kind == "prob" else "nan" for _ in Ty]
    act = [rnd.choice(acts) if rnd.random() < .9 or kind == "occ" else "rare" for _ in Ty]
    default, tdef = [rnd.choice([0, Q, rnd.randint(0, Q)]) for _ in Ty], [rnd.randint(1, 9) for _ in Ty]
    own = [dictionary(rnd, Ty) for _ in range(subs)]
    targets = [dictionary(rnd, Ty, 400) for _ in range(subs)]
    for D in targets:
        for x in D:
            x["v"] = max(1, x["v"])
    dur = [rnd.choice([1, 2, 30, 60, 1000]) for _ in Ty]
    share, perday = [[rnd.randint(0, 16) for _ in acts] for _ in range(subs)], [[rnd.randint(1, 4) for _ in acts] for _ in range(subs)]
    names = rnd.sample(["n%d" % i for i in range(n)], n)
    apps = {
        "number": n, "name": np.array(names), "type": np.array(tynames), "related_activity": np.array(act), "previous_activity": np.array(pact),
        "previous_appliance_type": np.array(ptype), "equipped_prob": np.array(default) / Q, "target_switchons": np.array(tdef, float),
        "mean_duration": np.array(dur, float), "after_cycle_delay": np.zeros(n, int), "probabilistic": np.full(n, kind == "prob"),
        "mean_elec_consumption": np.ones(n), "standby_consumption": np.zeros(n), "mean_water_consumption": np.zeros(n),
        "uses_water": np.zeros(n, bool), "inactive_switch_off": np.zeros(n, bool), "poisson_sampling_lambda_liters": np.zeros(n),
        "switch_on_prob_crest": np.zeros(n)}
    nres = [rnd.choice([0, 1, 2, 5]) for _ in range(subs)]
    data = Data(apps, [as_dict(D) for D in own], [as_dict(D, 1) for D in targets], acts, share, perday, rnd)
    before = copy.deepcopy((apps, data.own, data.targets))
    sl = [dict(sg=i, **({"n_residents": r} if r else {})) for i, r in enumerate(nres)]
    algo = rnd.choice(["subgroup", "subgroup", "subgroup", "basic", "all", "set_defined", "unknown"])
    sets = [[x for x in names + ["other"] if rnd.random() < .5] for _ in sl]
    kw = {"equipped_set_defined": sets} if algo == "set_defined" else {}
    same = Same()
    same.u = rnd.choice([0, 1, 31, 64, 100, 126, 127])
    ms = rnd.choice([1, 1, 10])
    if kind == "prob":
        kw["step_size"] = dt.timedelta(minutes=ms)
    wrong, give, total = algo == "unknown", counts, sum(counts)
    if kind != "occ" and rnd.random() < .15:
        if rnd.random() < .5:
            give, wrong = None, True
        else:
            total, wrong = total + 1, True
    now = {a: np.zeros(total) for a in acts + ["else", "rare"]}
    ev = dict(kind=kind, algo=algo, counts=counts, Ty=Ty, dicts=own, u=same.u, names=names, sets=sets, wrong=wrong, **{"def": default})
    try:
        for again in range(2):          # the second simulator gets the same data
            with same:
                common = dict(start_datetime=dt.datetime(2014, 3, 3, 4), equipped_sampling_algo=algo, data=data, **kw)
                if kind == "occ":
                    sim = OccupancyApplianceSimulator([dict(s) for s in sl], list(counts), **common)
                else:
                    C = ProbabiliticActivityAppliancesSimulator if kind == "prob" else ActivityApplianceSimulator
                    sim = C(total, {a: np.array(x) for a, x in now.items()}, subgroups_list=[dict(s) for s in sl], n_households_list=give, **common)
            t.add("equip", own=[[bool(x) for x in r] for r in np.asarray(sim.available_appliances)], refused=False,
                  same=equal(before, (apps, data.own, data.targets)), **ev)
    except (ValueError, AttributeError) as e:
        if not wrong:
            raise
        t.add("equip", own=[], refused=True, same=equal(before, (apps, data.own, data.targets)), **ev)
        return
    if kind == "prob":
        P = np.asarray(sim.switch_on_probs)
        T = {s: ap.get_target_from_dict(apps, data.targets[s], "target_switchons") for s in range(subs)}
        sub = [s for s, c in enumerate(counts) for _ in range(c)]

        def starts(i, j):
            p = float(P[i, j])
            return 0 if p == 0 or p != p and T[sub[i]][j] == 0 else WRONG if not p > 0 else qr(T[sub[i]][j] / p, 16)
        t.add("switch", counts=counts, Ty=Ty, tynames=tynames, targets=targets, tdef=tdef, acts=acts, act=act, pact=pact, ptype=ptype, dur=dur,
              share=share, perday=perday, nres=nres, steps=525960 // ms, starts=[[starts(i, j) for j in range(n)] for i in range(len(sub))])


def run(rec, inp, tier, seed):
    rnd = random.Random(seed)
    for b in inp.get("beh", []):
        with rec.trace("behaviour") as t:
            assign(t, rnd, b["list"], b["dict"])
    if inp.get("splits"):
        for one in (1, 2, 4, 8):
            with rec.trace("splits of %d" % one) as t:
                for p in range(-1, one + 2):
                    for n in range(-1, 4 * one + 3):
                        split(t, p, n, one)
    for _ in range(inp.get("n", 0)):
        with rec.trace("random types") as t:
            Ty = types(rnd, rnd.randint(1, 9))
            assign(t, rnd, Ty, dictionary(rnd, Ty))
            merge(t, rnd)
        with rec.trace("equipped households") as t:
            equip(t, rnd)


main(run)
