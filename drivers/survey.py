"""Driver of C30: the parser of the German time-use survey, on made-up surveys.

The survey files are read when the parser is imported, from a folder inside the package: each process copies the package
to a scratch folder, puts made-up files there and imports the parser anew for every survey.
"""
import importlib
import importlib.util
import os
import random
import shutil
import sys
import tempfile
import warnings

import numpy as np

from vf import main, q, qr, ql, WRONG

warnings.simplefilter("ignore")
SC = 100000
P = 144
NAMES = {"weekday": "wday", "n_residents": "nres", "household_type": "htype", "life_situation": "life", "salary": "salary",
         "hh_revenue": "revenue", "household_position": "pos", "geburtsland": "land", "gender": "gender", "quarter": "quarter"}


def package():
    src = os.path.dirname(importlib.util.find_spec("demod").origin)
    top = tempfile.mkdtemp(prefix="survey_", dir=os.environ["HOME"])
    shutil.copytree(src, os.path.join(top, "demod"), ignore=shutil.ignore_patterns("parsed_data", "__pycache__", "raw_data"))
    sys.path.insert(0, top)
    here = os.path.join(top, "demod", "datasets", "GermanTOU")
    os.makedirs(os.path.join(here, "raw_data"))
    import demod.datasets.GermanTOU.loader as ld
    assert os.path.dirname(os.path.realpath(ld.__file__)) == os.path.realpath(here)
    return top, here


def fresh(here):
    """Forget the parser and everything it stored, so that the next import reads the files of the moment."""
    shutil.rmtree(os.path.join(here, "parsed_data"), ignore_errors=True)
    sys.modules.pop("demod.datasets.GermanTOU.parser", None)
    pk = sys.modules.get("demod.datasets.GermanTOU")
    if pk is not None and hasattr(pk, "parser"):
        delattr(pk, "parser")


def tables(here):
    """The dictionaries of the parser, from a survey of one sleeper."""
    sv = Survey.__new__(Survey)
    sv.H, sv.P, sv.A, sv.seg = [[1, 1, 1, 1]], [[1, 40, 1, 1, 1, 1, 1]], [[1, 1, d, 0, 1, 1, 1, 1, 1] for d in (1, 2, 3)], [[[110, 0, P]]] * 3
    sv.write(here, random.Random(0))
    fresh(here)
    parser = importlib.import_module("demod.datasets.GermanTOU.parser")
    return {k: dict(getattr(parser, k)) for k in ("dic_home", "GTOU_label_to_activity", "GTOU_label_to_Bottaccioli_act",
                                                  "GTOU_label_to_energy_activity", "GTOU_label_to_CREST_act_v2")}


TRAVEL = [921, 922, 929, 931, 939, 941, 946, 948, 951, 961, 970, 980, 991]
NOTRAVEL = [997, 998, 999]


def segments(rnd, cells, rating, pool):
    """A diary in segments [main, secondary, periods] that is the given sequence of cells, stretched over the day."""
    n = len(cells)
    cuts = sorted(rnd.sample(range(1, P), n - 1)) if n > 1 else []
    if n > 1 and rnd.random() < .3:                       # short first and last segments
        cuts = sorted(set([rnd.choice([1, 2])] + cuts[1:]))
        cuts = sorted(rnd.sample(range(1, P), n - 1)) if len(cuts) < n - 1 else cuts
    lens = [b - a for a, b in zip([0] + cuts, cuts + [P])]
    by = {r: [c for c in pool if rating[c] == r and c < 900 and c] for r in range(-2, 3)}
    full = {r: [c for c in rating if rating[c] == r and c < 900 and c] for r in range(-2, 3)}

    def one(r):
        return rnd.choice(by[r] or full[r])
    out = []
    for (go, r), k in zip(cells, lens):
        if go:
            if rnd.random() < .75 and r == -2:
                seg = [rnd.choice(TRAVEL), 0]
            elif rnd.random() < .5:
                seg = [rnd.choice(TRAVEL), one(max(-2, min(2, r + 2)))]
            else:
                seg = [one(max(-2, min(2, r + 2))), rnd.choice(TRAVEL)]
        else:
            how = rnd.random()
            if -2 <= r <= 2 and how < .6:
                seg = [one(r), 0 if rnd.random() < .7 else one(0)]
            else:
                a = rnd.choice([x for x in range(-2, 3) if -2 <= r - x <= 2])
                seg = [one(a), one(r - a)]
                if r == 0 and how > .9:
                    seg[0], seg[1] = rnd.choice(NOTRAVEL[1:]), 0
        out.append(seg + [k])
    return out


class Survey:
    """A made-up survey: households, persons and diaries."""

    def __init__(self, rnd, rating, seqs, hh=None):
        self.H, self.P, self.A, self.seg = [], [], [], []
        codes = sorted(rating)
        pool = [110, rnd.choice([132, 110, 120])] + rnd.sample([c for c in codes if 0 < c < 900], rnd.choice([3, 6, 10])) \
            + rnd.sample([411, 413, 412, 421, 431, 432, 820, 131, 841, 843, 210, 311, 353], rnd.choice([2, 5]))
        few = rnd.random() < .3            # everything alike: people do the same at the same moments
        common = [rnd.choice(seqs) for _ in range(3)]
        days_off = rnd.random() < .7
        always = None
        if rnd.random() < .15:             # nobody is ever away, or nobody ever asleep
            always = rnd.choice([[(0, 1)], [(0, -2)], [(0, 1), (0, 2)]])
        if rnd.random() < .1:
            pool = [c for c in pool if c not in (110, 132)] + [820, 411]
        kinds = rnd.sample(range(1, 12), 2) + [8]
        cache = {}
        for h in range(1, (hh or rnd.randint(1, 7)) + 1):
            nres = rnd.choice([1, 1, 2, 2, 2, 3, 4, 5, 6])
            rec = nres if rnd.random() < .7 else rnd.randint(1, nres)
            rec = min(rec, 4)
            self.H.append([nres, 1 if nres == 1 else rnd.randint(2, 5), rnd.randint(1, 7), rnd.randint(1, 5)])
            missing = rnd.randint(1, 3) if days_off and rnd.random() < .3 else 0
            same = {d: rnd.choice([1, 1, 2]) for d in (1, 2, 3)}
            for _ in range(rec):
                self.P.append([h, rnd.choice([10, 25, 40, 65, rnd.randint(10, 90)]), rnd.choice(kinds), rnd.randint(1, 5),
                               rnd.randint(1, 9), rnd.randint(1, 2), rnd.randint(1, 2)])
                p = len(self.P)
                quarter = rnd.randint(1, 4)
                rows = [d for d in (1, 2, 3) if d != missing]
                for d in rows:
                    last = d == rows[-1]
                    s = rnd.choice(common if few else seqs)
                    cells = [tuple(c) for c in s["d"]]
                    ini, fin = s["ini"], s["fin"]
                    if always:
                        cells, ini, fin = list(always), 1, 1
                    if not last and not always and rnd.random() < .4:
                        fin = -2
                    key = (tuple(cells), ) if few else None
                    if key and key in cache and rnd.random() < .7:
                        seg = cache[key]
                    else:
                        seg = segments(rnd, cells, rating, pool)
                        if key:
                            cache[key] = seg
                    self.A.append([h, p, d, missing, same[d], quarter, rnd.randint(1, 7), ini, fin])
                    self.seg.append(seg)

    def write(self, here, rnd):
        import pandas as pd
        base = os.path.join(here, "raw_data", "zve13_puf_")
        ids = rnd.sample(range(1000, 9000), len(self.P))
        rank = []
        for p in self.P:
            rank.append(1 + sum(1 for x in self.P[:len(rank)] if x[0] == p[0]))
        pd.DataFrame({"id_hhx": range(1, len(self.H) + 1), "ha1x": [h[0] for h in self.H], "hhtyp": [h[1] for h in self.H],
                      "anz_erw": [h[2] for h in self.H], "hd15x": [h[3] for h in self.H]}).to_csv(base + "hh.csv", sep=";", index=False)
        pd.DataFrame({"id_persx": ids, **{k: [p[i] for p in self.P] for i, k in enumerate(
            ["id_hhx", "alterx", "pb3", "pe23x", "ha6x", "ha8x", "ha3"])}}).to_csv(base + "pers.csv", sep=";", index=False)
        cols = {"id_hhx": [a[0] for a in self.A], "id_persx": [ids[a[1] - 1] for a in self.A], "persx": [rank[a[1] - 1] for a in self.A],
                "tagnr": [a[2] for a in self.A], "fehl_tag": [a[3] for a in self.A], "selbtag": [a[4] for a in self.A],
                "quartal": [a[5] for a in self.A], "wtagfei": [a[6] for a in self.A],
                "tc5": [1 if any(s[0] >= 900 or s[1] >= 900 for s in seg) else 2 for seg in self.seg],
                "tc7": [a[7] for a in self.A], "tc8": [a[8] for a in self.A]}
        main_, sec = self.expand(0), self.expand(1)
        for x in range(P):
            cols["tb1_%d" % (x + 1)] = [r[x] for r in main_]
            cols["tb2_%d" % (x + 1)] = [r[x] for r in sec]
            for k in (3, 4, 5):
                cols["tb%d_%d" % (k, x + 1)] = [rnd.choice([0, 1])] * len(self.A)
        pd.DataFrame(cols).to_csv(base + "takt.csv", sep=";", index=False)

    def expand(self, k):
        return [[c for s in seg for c in [s[k]] * s[2]] for seg in self.seg]

    def per_segment(self, row, seg, f):
        """The different values of a row of 144 within each segment."""
        row = list(row)
        if len(row) != P:
            return [[]]
        out, x = [], 0
        for s in seg:
            out.append(sorted({f(v) for v in row[x:x + s[2]]}))
            x += s[2]
        return out


FLAGS = ("only_fully_recorded_household", "remove_missing_days", "only_household_identical_days")


def requirement(rnd, sv):
    """A requirement as the code takes it, and as the specification reads it."""
    kw, req = {}, []

    def num(name, vals, lists=False):
        if lists and rnd.random() < .4:
            v = sorted(rnd.sample(vals, rnd.randint(1, min(3, len(vals)))))
            kw[name] = v
        else:
            v = [rnd.choice(vals)]
            kw[name] = v[0]
        req.append({"k": NAMES[name], "v": v})

    def seen(t, i):
        return sorted({r[i] for r in t})
    pick = rnd.sample(["weekday", "n_residents", "life_situation", "household_type", "salary", "hh_revenue", "household_position",
                       "geburtsland", "gender", "quarter", "age", "hh_mean_age", "hh_work_type"], rnd.choice([0, 1, 1, 2, 2, 3]))
    for name in pick:
        if name == "weekday":
            num(name, list(range(1, 8)) if rnd.random() < .3 else seen(sv.A, 6), True)
        elif name == "n_residents":
            num(name, list(range(1, 7)) if rnd.random() < .3 else seen(sv.H, 0), True)
        elif name == "life_situation":
            num(name, list(range(1, 12)) if rnd.random() < .3 else seen(sv.P, 2), True)
        elif name == "household_type":
            num(name, seen(sv.H, 1))
        elif name == "salary":
            num(name, seen(sv.P, 3))
        elif name == "hh_revenue":
            num(name, seen(sv.H, 3))
        elif name == "household_position":
            num(name, seen(sv.P, 4))
        elif name == "geburtsland":
            num(name, [1, 2])
        elif name == "gender":
            num(name, [1, 2])
        elif name == "quarter":
            num(name, seen(sv.A, 5))
        elif name in ("age", "hh_mean_age"):
            ages = seen(sv.P, 1)
            lo = rnd.choice(ages + [0, 30])
            hi = max(lo, rnd.choice(ages + [100, 60]))
            kw[name] = (lo, hi)
            req.append({"k": "age" if name == "age" else "meanage", "v": [lo, hi]})
        else:
            w = rnd.choice(["1_fulltime", "1_halftime", "2_fulltime", "1_fulltime_1_halftime", "3_fulltime", "other", "1_retired", "2_retired",
                            "1_retired", "2_retired"])
            kw[name] = w
            req.append({"k": "work", "w": w, "v": []})
    flags = [1, 1, 1]
    if rnd.random() < .6:
        flags = [rnd.randint(0, 1) for _ in range(3)] if rnd.random() < .6 else [0, 0, 0]
    for k, f in zip(FLAGS, flags):
        if not f or rnd.random() < .2:
            kw[k] = bool(f)
    return kw, {"req": req, "flags": flags}


def share(x):
    return qr(x, SC)


def pdf_sparse(v):
    return [[i, share(x)] for i, x in enumerate(v) if x != 0]


def one(rec, name, rnd, here, tabs, seqs, hh=None):
    rating = tabs["dic_home"]
    sv = Survey(rnd, rating, seqs, hh)
    sv.write(here, rnd)
    fresh(here)
    codes = sorted({c for seg in sv.seg for s in seg for c in s[:2]} | {0, 110})
    ix = {c: k + 1 for k, c in enumerate(codes)}
    tab = {k: [tabs[v][c] for c in codes] for k, v in (
        ("DemodActivities_0", "GTOU_label_to_activity"), ("Bottaccioli2018", "GTOU_label_to_Bottaccioli_act"),
        ("energy", "GTOU_label_to_energy_activity"), ("crest", "GTOU_label_to_CREST_act_v2"))}
    allof = {k: sorted({"other" if x == "-" else x for c, x in tabs[v].items() if c != 0}) for k, v in (
        ("DemodActivities_0", "GTOU_label_to_activity"), ("Bottaccioli2018", "GTOU_label_to_Bottaccioli_act"))}
    cfg = {"H": sv.H, "P": sv.P, "A": sv.A, "seg": [[[ix[s[0]], ix[s[1]], s[2]] for s in seg] for seg in sv.seg],
           "codes": codes, "home": [rating[c] for c in codes], "tab": tab, "all": allof}
    bounds = sorted({sum(s[2] for s in seg[:k]) for seg in sv.seg for k in range(1, len(seg))})

    def times(n=4):
        b = [x for y in rnd.sample(bounds, min(n, len(bounds))) for x in (y - 1, y) if 0 <= x < P]
        return sorted(set(b + [0, P - 1, rnd.randrange(P)]))
    with rec.trace(name, **cfg) as t:
        parser = importlib.import_module("demod.datasets.GermanTOU.parser")
        from demod.datasets.GermanTOU.loader import GTOU
        t.add("survey", home=[sv.per_segment(r, seg, int) for r, seg in zip(parser.occ, sv.seg)] if len(parser.occ) == len(sv.seg) else [])
        done = set()
        for _ in range(6):
            kw, want = requirement(rnd, sv)
            rows = [int(i) + 1 for i in np.where(parser.get_mask_subgroup(**kw))[0]]
            t.add("mask", rows=rows, size=len(parser.get_mask_subgroup(**kw)), **want)
            if not rows or str(kw) in done or len(done) > 2:
                continue
            done.add(str(kw))
            events(t, rnd, sv, parser, GTOU, kw, want, rows, times)


def matrix(m):
    return [[share(x) for x in r] for r in m]


def events(t, rnd, sv, parser, GTOU, kw, want, rows, times):
    segs = [sv.seg[r - 1] for r in rows]
    for kind in rnd.sample(["DemodActivities_0", "Bottaccioli2018", "4_States", "Sparse9States"], 2):
        g = GTOU(kind)
        if kind in ("DemodActivities_0", "Bottaccioli2018"):
            st, hh, day = g.get_states(dict(kw), return_hh=True, return_day=True)
            alone = g.get_states(dict(kw))
            t.add("states", kind=kind, out=[sv.per_segment(r, s, str) for r, s in zip(st, segs)], n=len(st), hh=ql(hh), day=ql(day),
                  same=bool(np.array_equal(st, alone)), **want)
            t.add("runs")
            pr = g.load_activity_probabilities(dict(kw))
            x = times()
            t.add("probs", times=x, keys=sorted(pr), p=[[share(pr[k][i]) for i in x] if len(pr[k]) == P else [] for k in sorted(pr)])
            ds = g.load_daily_activity_starts(dict(kw))
            t.add("starts", keys=sorted(ds), p=[[share(v) for v in ds[k]] for k in sorted(ds)])
            du = g.load_activity_duration(dict(kw))
            t.add("durations", keys=sorted(du), size=[len(du[k]) for k in sorted(du)], p=[pdf_sparse(du[k]) for k in sorted(du)])
        else:
            t.add("group", kind=kind, **want)
            t.add("runs")
        if kind == "Sparse9States":
            tpm, labels, acts, initial = g.load_sparse_tpm(dict(kw))
            x = times()
            n = len(labels)
            t.add("sparse", labels=[str(int(v)) for v in labels], acts=[str(a) for a in acts], initial=[share(v) for v in initial], times=x,
                  tpm=[matrix(np.asarray(tpm[i])) for i in x])
            continue
        tpm, labels, initial = g.load_tpm(dict(kw))
        x = times()
        t.add("tpm", kind=kind, labels=[str(v) for v in labels], initial=[share(v) for v in initial], times=x, size=len(tpm),
              tpm=[matrix(tpm[i]) for i in x])
        if rnd.random() < .5:
            tpm, dur, labels, initial, first = g.load_tpm_with_duration(dict(kw))
            x = times(2)
            t.add("tpmdur", kind=kind, labels=[str(v) for v in labels], initial=[share(v) for v in initial], times=x, size=len(tpm),
                  tpm=[matrix(tpm[i]) for i in x], dur=[[pdf_sparse(r) for r in dur[i]] for i in x], first=[pdf_sparse(r) for r in first],
                  algo="last" if kind == "4_States" else "nothing")
    if rnd.random() < .6:
        x = times(6)
        pf = GTOU("4_States").load_activity_probability_profiles(dict(kw))
        t.add("profiles", keys=sorted(pf), times=x, p=[[[share(v) for v in pf[k][i]] for i in x] for k in sorted(pf)], **want)
    t.add("active", out=ql(parser.get_active_occupancy(dict(kw)), P), **want)


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    top, here = package()
    tabs = tables(here)
    seqs = inp["beh"]
    try:
        if inp.get("replay"):
            # every printed diary appears in a survey: households of one, three days each
            k = 0
            while k < len(seqs):
                part = seqs[k:k + 21]
                replay(rec, "replay%d" % k, rnd, here, tabs, part)
                k += 21
        for n in range(inp.get("n", 0)):
            one(rec, "survey%d" % n, rnd, here, tabs, seqs)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def replay(rec, name, rnd, here, tabs, part):
    rating = tabs["dic_home"]
    sv = Survey(rnd, rating, part, 1)
    sv.H, sv.P, sv.A, sv.seg = [], [], [], []
    pool = rnd.sample([c for c in rating if 0 < c < 900], 40)
    for i in range(0, len(part), 3):
        sv.H.append([1, 1, 2, 1])
        h = len(sv.H)
        sv.P.append([h, 40, 2, 1, 1, 1, 1])
        for d, s in enumerate(part[i:i + 3]):
            fin = s["fin"]
            if d + 1 < len(part[i:i + 3]) and part[i + d + 1]["ini"] == fin and rnd.random() < .7:
                fin = -2
            sv.A.append([h, h, d + 1, 0, 1, 1, 1, s["ini"], fin])
            sv.seg.append(segments(rnd, [tuple(c) for c in s["d"]], rating, pool))
    sv.write(here, rnd)
    fresh(here)
    codes = sorted({c for seg in sv.seg for s in seg for c in s[:2]} | {0, 110})
    ix = {c: k + 1 for k, c in enumerate(codes)}
    with rec.trace(name, H=sv.H, P=sv.P, A=sv.A, seg=[[[ix[s[0]], ix[s[1]], s[2]] for s in seg] for seg in sv.seg], codes=codes,
                   home=[rating[c] for c in codes], tab={}, all={}) as t:
        parser = importlib.import_module("demod.datasets.GermanTOU.parser")
        t.add("survey", home=[sv.per_segment(r, seg, int) for r, seg in zip(parser.occ, sv.seg)])


if __name__ == "__main__":
    main(drive)
