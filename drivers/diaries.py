"""Sets of diaries through the functions that count, convert and compare them."""
import copy
import random
import numpy as np
from vf import main, q, qr
from demod.utils import parse_helpers as ph
from demod.metrics import states as ms

SC = 100000


def table(a):
    """A nested list, in parts of SC."""
    a = np.asarray(a)
    return [table(x) for x in a] if a.ndim else qr(a, SC)


class Call:
    """Calls and notices whether arguments were changed."""

    def __init__(self):
        self.untouched = True

    def __call__(self, f, *a, **kw):
        before = copy.deepcopy((a, kw))
        r = f(*a, **kw)
        for x, y in zip([*before[0], *before[1].values()], [*a, *kw.values()]):
            if isinstance(x, np.ndarray):
                self.untouched &= x.shape == y.shape and x.dtype == y.dtype and bool((x == y).all())
            elif isinstance(x, (list, dict)):
                self.untouched &= x == y
        return r


def triples(tr, unlab, dur):
    n = len(tr["times"])
    cols = ["persons", "new_states", "old_states"] + (["durations"] if dur else [])
    if any(len(tr[c]) != n for c in cols):
        return [[-9]]
    return [[q(tr["times"][k]), q(tr["persons"][k]) + 1, unlab(tr["new_states"][k]), unlab(tr["old_states"][k])] + ([q(tr["durations"][k])] if dur else [])
            for k in range(n)]


def one(rec, rnd, name, D, E, K, what):
    """D, E: lists of lists of states 0..K-1."""
    if "metrics" in what and len(E[0]) != len(D[0]):
        E = [[r[x % len(r)] for x in range(len(D[0]))] for r in E]
    kind = rnd.choice(["int", "int", "str", "gaps", "int8"])
    lab = {"int": list(range(K)), "int8": list(range(K)), "str": ["s%d" % k for k in range(K)], "gaps": [3 * k + 2 for k in range(K)]}[kind]
    dense = np.array(D, dtype=rnd.choice([int, int, np.int32, np.int8]))
    if rnd.random() < .3:
        dense = np.asfortranarray(dense)
    shown = np.array([[lab[s] for s in r] for r in D], dtype=np.int8 if kind == "int8" else None)
    un = {x: k for k, x in enumerate(lab)}
    unlab = lambda x: un.get(x.item() if hasattr(x, "item") else x, -7)
    visited = sorted({s for r in D for s in r})
    full = visited == list(range(len(visited)))
    with rec.trace(name, D=D, E=E, K=K) as t:
        def add(op, c, **kw):
            t.add(op, untouched=c.untouched, **kw)
        if "trans" in what:
            for ign in (False, True):
                for dur in (False, True):
                    c = Call()
                    add("trans", c, ign=ign, same=False, dur=dur,
                        out=triples(c(ph.states_to_transitions, shown, return_duration=dur, ignore_end_start_transitions=ign), unlab, dur))
            c = Call()
            add("trans", c, ign=False, same=True, dur=False, out=triples(c(ph.states_to_transitions, shown, include_same_state=True), unlab, False))
            for algo in ("last", "nothing") if len(D) * len(D[0]) < 60 else ():
                c = Call()
                n = rnd.choice([None, K, K + 1])
                kw = {} if n is None else {"labels": [str(k) for k in range(n)]}
                add("tpms", c, algo=algo, n=max(visited) + 1 if n is None else n, tpm=table(c(ph.states_to_tpms, dense, first_tpm_modification_algo=algo, **kw)))
                for ign in (False, True):
                    c = Call()
                    n = rnd.choice([None, K, K + 1]) if full else rnd.choice([K, K + 1])
                    kw = {} if n is None else {"labels": [str(k) for k in range(n)]}
                    kw.update({} if ign and rnd.random() < .5 else {"ignore_end_start_transitions": ign})
                    a, b, p = c(ph.states_to_tpms_with_durations, dense, first_tpm_modification_algo=algo, **kw)
                    add("tpmdur", c, algo=algo, ign=ign, n=len(visited) if n is None else n, tpm=table(a), dur=table(b), prev=table(p))
            if full:
                c = Call()
                r = c(ph.get_initial_durations_pdfs, dense)
                add("first", c, pdf=table(r) + [[SC] + [0] * len(D[0])] * (K - len(visited)))
            if len(E) == len(D) and len(E[0]) == len(D[0]):
                c = Call()
                sec = np.array([[lab[s] for s in r] for r in E], dtype=shown.dtype)
                add("second", c, out=triples(c(ph.states_to_transitions_secondary, shown, sec), unlab, False))
            c = Call()
            hh, day = [rnd.randint(3, 4) for _ in D], [rnd.randint(1, 2) for _ in D]
            r = c(ph.group_hh_transitions, dense, np.array(hh), np.array(day))
            add("hh", c, hh=hh, day=day, out=[[q(r[k][j]) for k in ("times", "new_states", "old_states", "households", "day_nrs", "counts")] for j in range(len(r["times"]))])
            c = Call()
            mp = [rnd.choice([0, 1, 2, 5]) for _ in range(K)]
            if rnd.random() < .5:
                mp = list(range(K))
                r = c(ph.convert_states, shown)
                labels = [unlab(x) for x in r[1]]
            elif rnd.random() < .5:
                r = c(ph.convert_states, shown, {lab[k]: "m%d" % mp[k] for k in range(K)})
                labels = [int(str(x)[1:]) for x in r[1]]
            else:
                r = c(ph.convert_states, dense, np.array(mp))
                labels = [int(x) for x in r[1]]
            add("convert", c, map=mp, lab=labels, out=[[q(x) for x in y] for y in r[0]])
            c = Call()
            counts = [[rnd.choice([0, 0, 1, 2, 5]) for _ in range(3)] for _ in range(4)]
            valid = rnd.random() < .7
            a = np.array(counts, dtype=rnd.choice([int, float]))
            if rnd.random() < .4:
                add("pdf", c, counts=counts, valid=valid, out=table(c(ph.counts_to_pdf, a.reshape(2, 2, 3), valid).reshape(4, 3)))
            else:
                add("pdf", c, counts=counts, valid=valid, out=table(c(ph.counts_to_pdf, a, ensure_valid_pdf=valid)))
        if "durs" in what:
            c = Call()
            d, s = c(ms.get_states_durations, shown)
            add("durs", c, out=[[q(x), unlab(y)] for x, y in zip(d, s)] if len(d) == len(s) else [[-9, -9]])
            c = Call()
            r = c(ms.get_durations_by_states, shown)
            add("bystate", c, out=[{"s": unlab(k), "d": [q(x) for x in v]} for k, v in r.items()])
            c = Call()
            d, s = c(ms.get_states_durations, dense)
            add("durs", c, out=[[q(x), q(y)] for x, y in zip(d, s)] if len(d) == len(s) else [[-9, -9]])
            for arr in (d, dense, dense[0]):
                c = Call()
                r = c(ms.count, arr)
                add("count", c, arr=[q(x) for x in np.asarray(arr).reshape(-1)], lab=[q(x) for x, _ in r], out=[[q(x), q(y)] for x, y in r])
            if full:
                c = Call()
                r = c(ph.get_initial_durations_pdfs, dense)
                add("first", c, pdf=table(r) + [[SC] + [0] * len(D[0])] * (K - len(visited)))
        if "metrics" in what:
            other = np.array([[lab[s] for s in r] for r in E], dtype=shown.dtype)
            for avg in (True, False):
                c = Call()
                r = c(ms.state_duration_distribution_metric, shown, other, *([] if avg else [False]))
                add("durdist", c, avg=avg, out=[{"s": unlab(k), "v": [qr(x, SC) for x in np.atleast_1d(v)]} for k, v in r.items()])
                c = Call()
                r = c(ms.average_state_metric, dense, np.array(E), *([] if avg else [False]))
                add("average", c, avg=avg, out=[qr(x, SC) for x in np.atleast_1d(r)])
            c = Call()
            r = c(ms.graph_metrics, dense)
            add("graph", c, size=q(r[0]), density=qr(r[1], SC), central=qr(r[2], SC), homo=qr(r[3], SC))
            c = Call()
            flat = [rnd.choice([0, 0, 1, 2]) for _ in range(12)]
            add("sparsity", c, flat=flat, out=qr(c(ms.sparsity, np.array(flat, dtype=float).reshape(rnd.choice([(12,), (3, 4), (3, 2, 2)])) / 2), SC))


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    what = inp["what"]
    beh = inp["beh"]
    for n, D in enumerate(beh):
        E = rnd.choice(beh)
        if rnd.random() < .7:
            E = [[rnd.randrange(3) for _ in D[0]] for _ in D]
        K = max(max(s for r in D + E for s in r) + 1, 2)
        one(rec, rnd, "enumerated%d" % n, D, E, K, what)
    for n in range(inp["random"]):
        K, N, T = rnd.randint(1, 4), rnd.randint(1, 6), rnd.randint(1, 8)
        if n % 10 == 3:
            N, T = rnd.randint(7, 25), rnd.randint(6, 26)
        stick = rnd.choice([.3, .6, .9])

        def diary():
            r = [rnd.randrange(K)]
            for _ in range(T - 1):
                r.append(r[-1] if rnd.random() < stick else rnd.randrange(K))
            return r
        one(rec, rnd, "random%d" % n, [diary() for _ in range(N)], [diary() for _ in range(N if rnd.random() < .7 else rnd.randint(1, 5))], K, what)


if __name__ == "__main__":
    main(drive)
