"""Profiles through the load metrics."""
import datetime as dt
import random
import numpy as np
from vf import main, q, qr, ql, qm
from diaries import Call
from demod.metrics import loads as lm
from demod.metrics import errors as er

SC = 10000


def one(rec, rnd, name, P, Q):
    u = rnd.choice([1, 1, 2, 4])
    whole = u == 1 and rnd.random() < .5
    T, N = len(P[0]), len(P)

    def arr(x, dim=2):
        a = np.array(x, dtype=int if whole else float) / (1 if whole else u)
        a = a.astype(int) if whole else a
        return np.asfortranarray(a) if rnd.random() < .2 else a
    A = arr(P)
    with rec.trace(name, P=P, Q=Q, u=u) as t:
        def add(op, c, **kw):
            t.add(op, untouched=c.untouched, **kw)
        c = Call()
        secs = rnd.choice([60, 1, 900])
        add("energy", c, secs=secs, out=ql(c(lm.total_energy_consumed, A, *([] if secs == 60 else [dt.timedelta(seconds=secs)])), N, u))
        for given in (False, True):
            single = N == 1 and rnd.random() < .5
            c = Call()
            loads = [rnd.randint(-1, 8) for _ in range(rnd.randint(1, 4))]
            x, d = c(lm.load_duration, A[0].copy() if single else A, *([arr(loads)] if given else []))
            add("curve", c, given=given, loads=loads, x=ql(x, None, u), d=qm(d, (N, len(x))))
        c = Call()
        with np.errstate(all="ignore"):
            add("factors", c, div=qr(c(lm.diversity_factor, A), SC), coin=qr(c(lm.coincidence_factor, A), SC), sim=qr(c(lm.simultaneity_factor, A), SC),
                tcd=qr(c(lm.time_coincident_demand, A), SC))
        if T > 1:
            L = max(abs(r[k] - r[k - 1]) for r in P for k in range(1, T))
            for norm in (True, False):
                c = Call()
                bins = rnd.choice([1, 2, 3, 4, 7, 100])
                kw = {} if norm and rnd.random() < .5 else {"normalize": norm}
                cdf, edges = c(lm.cumulative_changes_in_demand, A, *([] if bins == 100 else [bins]), **kw)
                if L == 0:
                    add("flat", c, bins=bins, cdf=ql(cdf, bins, SC, qr))
                else:
                    want = np.linspace(0, 1 if norm else L / u, bins + 1)
                    ok = np.shape(edges) == want.shape and np.allclose(edges, want, rtol=1e-12, atol=1e-12)
                    exact = bins in (1, 2, 4) and (not norm or L in (1, 2, 4, 8, 16))
                    add("hist", c, norm=norm, given=False, refused=False, exact=bool(exact), den=bins, edges=[k * (1 if norm else L) for k in range(bins + 1)],
                        cdf=ql(cdf, bins, SC, qr) if ok else [])
                c = Call()
                den = 4 if norm else rnd.choice([1, 2])
                edges = sorted(rnd.sample(range(0, 5 if norm else 8 * den), rnd.randint(2, 4)))
                if rnd.random() < .6:
                    edges[0] = 0
                if rnd.random() < .7:
                    edges[-1] = max(edges[-1], 4 if norm else (L + 1) * den)
                scale = 1 if norm else u
                e = [x / den / scale for x in edges]
                e = rnd.choice([e, np.array(e)])
                try:
                    cdf, got = c(lm.cumulative_changes_in_demand, A, normalize=norm, bin_edges=e)
                    refused, ok = False, bool(np.array_equal(got, e))
                except ValueError:
                    cdf, refused, ok = [], True, True
                exact = not norm or L in (0, 1, 2, 4, 8, 16)
                add("hist", c, norm=norm, given=True, refused=refused, exact=exact, den=den, edges=edges, cdf=ql(cdf, None, SC, qr) if ok else [])
        c = Call()
        B = arr(Q)
        sim = c(lm.profiles_similarity, A, B)
        var = c(lm.profiles_variety, A, False) if N > 1 else []
        rm = -1
        if len(P) == len(Q):
            rm = qr(c(er.RMSE, A, B) ** 2 * N * T * u * u, 1)
        add("compare", c, sim=qm(np.asarray(sim) ** 2, (N, len(Q)), u * u, qr), var=ql(np.asarray(var) ** 2, N * (N - 1) // 2, u * u, qr), rmse=rm)


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    for n, P in enumerate(inp["beh"]):
        one(rec, rnd, "enumerated%d" % n, P, [[rnd.randint(0, 6) for _ in P[0]] for _ in range(rnd.randint(1, 3))])
    for n in range(inp["random"]):
        N, T = rnd.randint(1, 6), rnd.randint(1, 12)
        if n % 10 == 5:
            N, T = rnd.randint(6, 15), rnd.randint(8, 40)
        flat = rnd.choice([.1, .5, .8])
        top = rnd.choice([3, 9, 40])

        def profile():
            r = [rnd.randint(0, top)]
            for _ in range(T - 1):
                r.append(r[-1] if rnd.random() < flat else rnd.randint(0, top))
            return r
        P = [profile() for _ in range(N)]
        one(rec, rnd, "random%d" % n, P, [[rnd.randint(0, top) for _ in range(T)] for _ in range(N if rnd.random() < .5 else rnd.randint(1, 4))])


if __name__ == "__main__":
    main(drive)
