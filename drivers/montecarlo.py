"""The Monte Carlo helpers and the validity checks (C19), proportional and random populations (C20)."""
import io
import random
from contextlib import redirect_stdout
import numpy as np
from vf import main, q, qr, ql, qm, WRONG
from scripted import Scripted, U
from demod.utils import monte_carlo as mc
from demod.utils import distribution_functions as df


def draw(t, kind, rows, us, D, exact, m):
    """rows: weights; us: numbers in 1/m; exact: the floating point distribution is exactly the rows"""
    p = np.array(rows, dtype=float) / D
    arg = p if kind.endswith('pdf') else np.cumsum(p, axis=-1)
    if kind.startswith('1d'):
        arg = arg[0]
    keep = arg.copy()
    with Scripted([u * (U // m) if u < m - 1 or exact == 'half' else U - 1 for u in us]) as s:
        if kind == '1d_pdf':
            out = mc.monte_carlo_from_1d_pdf(arg, n_samples=len(us)) if len(us) > 1 else mc.monte_carlo_from_1d_pdf(arg)
        elif kind == '1d_cdf':
            out = mc.monte_carlo_from_1d_cdf(arg, n_samples=len(us)) if len(us) > 1 else mc.monte_carlo_from_1d_cdf(arg)
        elif kind == '2d_pdf':
            out = mc.monte_carlo_from_pdf(arg)
        else:
            out = mc.monte_carlo_from_cdf(arg)
    t.add('draw', kind=kind, rows=rows, n=len(us), us=us, outs=ql(out), scripted=bool(s.used() and exact),
          same=bool(np.array_equal(keep, arg)))


KINDS = ['1d_pdf', '1d_cdf', '2d_pdf', '2d_cdf']


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    with rec.trace('design/0', m=8) as t:
        pass
    t = None
    for i, b in enumerate(inp['beh']):
        if i % 200 == 0:
            if t:
                t.__exit__(None, None, None)
            t = rec.trace('design/%d' % (1 + i // 200), m=8).__enter__()
        try:
            # the last number of [0, 1) is the largest float below 1 (still in the last eighth)
            for k in KINDS:
                if k[0] == '1':
                    for r, u, _ in b:
                        draw(t, k, [r], [u], 4, 'exact', 8)
                    draw(t, k, [b[0][0]], [x[1] for x in b], 4, 'exact', 8)
                elif len(set(len(x[0]) for x in b)) == 1:
                    draw(t, k, [x[0] for x in b], [x[1] for x in b], 4, 'exact', 8)
                else:
                    draw(t, k, [b[1][0]], [b[1][1]], 4, 'exact', 8)
        except Exception as e:
            t.ev.append({'op': 'raised', 'exc': repr(e)[:200]})
    t.__exit__(None, None, None)
    # long rows, dyadic: exact, every cell boundary
    for i in range(inp['random']):
        with rec.trace('long/%d' % i, m=1024) as t:
            n, D = rnd.choice([1, 2, 5, 30, 144]), 256
            h = rnd.choice([1, 3, 20])
            rows = []
            for _ in range(h):
                w = np.bincount(np.array([rnd.choice(range(n)) for _ in range(rnd.choice([1, 2, D]))]), minlength=n)
                rows.append([int(x) * (D // int(w.sum())) for x in w])
            for k in KINDS:
                us = [rnd.choice([0, 1023, rnd.randrange(1024), 4 * rnd.randrange(256)]) for _ in range(h)]
                draw(t, k, rows[:1] if k[0] == '1' else rows, us, D, 'exact', 1024)
    # rows that do not add up to one exactly: extreme numbers stay possible, middle ones are inverted
    for i in range(inp['random']):
        with rec.trace('rounded/%d' % i, m=1) as t:
            D = rnd.choice([3, 7, 10, 49, 100, 1000])
            n, h = rnd.choice([2, 3, 7, 49]), rnd.choice([1, 4, 40])
            rows = []
            for _ in range(h):
                sup = rnd.sample(range(n), rnd.randint(1, n))
                w = [0] * n
                for _ in range(D):
                    w[rnd.choice(sup)] += 1
                rows.append(w)
            for k in KINDS:
                one = rows[:1] if k[0] == '1' else rows
                draw(t, k, one, [rnd.choice([0, 1]) for _ in range(h)], D, False, 2)
            t.cfg['m'] = 2 * D
            for k in KINDS:
                one = rows[:1] if k[0] == '1' else rows
                us = [2 * rnd.randrange(D) + 1 for _ in range(h)]
                p = np.array(one, dtype=float) / D
                arg = p if k.endswith('pdf') else np.cumsum(p, axis=-1)
                arg = arg[0] if k[0] == '1' else arg
                f = {'1d_pdf': mc.monte_carlo_from_1d_pdf, '1d_cdf': mc.monte_carlo_from_1d_cdf,
                     '2d_pdf': mc.monte_carlo_from_pdf, '2d_cdf': mc.monte_carlo_from_cdf}[k]
                with Scripted([]) as s:
                    s.done = False
                    s._take = lambda size=None, us=us, s=s: given(s, us, D, size)
                    out = f(arg, n_samples=h) if k[0] == '1' else f(arg)
                t.add('draw', kind=k, rows=one, n=h, us=us, outs=ql(out), scripted=bool(s.done and not s.other), same=True)
    with rec.trace('independence', m=1) as t:
        for k in range(5):
            p = np.full((64, 2), .5)
            t.add('independent', outs=ql(mc.monte_carlo_from_pdf(p)), again=ql(mc.monte_carlo_from_pdf(p)))
            c = np.cumsum(p, axis=1)
            t.add('independent', outs=ql(mc.monte_carlo_from_cdf(c)), again=ql(mc.monte_carlo_from_cdf(c)))
            t.add('independent', outs=ql(mc.monte_carlo_from_1d_pdf(p[0], 64)), again=ql(mc.monte_carlo_from_1d_pdf(p[0], 64)))
            t.add('independent', outs=ql(mc.monte_carlo_from_1d_cdf(c[0], n_samples=64)),
                  again=ql(mc.monte_carlo_from_1d_cdf(c[0], n_samples=64)))
    for i in range(inp['valid']):
        with rec.trace('valid/%d' % i, one=10 ** 8, eps=100) as t:
            for _ in range(20):
                one, n, h = 10 ** 8, rnd.choice([1, 2, 3, 6]), rnd.choice([1, 2, 5])
                rows = []
                for _ in range(h):
                    c = sorted(rnd.choice([0, one, rnd.randrange(one)]) for _ in range(n - 1)) + [one]
                    rows.append(c)
                r = rnd.choice(rows)
                nan = False
                k = rnd.choice(['ok', 'ok', 'end', 'near', 'drop', 'negative', 'nan', 'above', 'shape', 'zero', 'middle'])
                if k == 'end':
                    r[-1] = one + rnd.choice([1000, -1000, 10 ** 7, -10 ** 7, 10 ** 5, -10 ** 5])
                elif k == 'near':
                    r[-1] = one + rnd.choice([20, -20, 50, -50])
                elif k == 'drop' and n > 1:
                    j = rnd.randrange(n - 1)
                    r[j] = min(r[j + 1] + rnd.choice([5, 10 ** 4, 10 ** 6]), one)
                elif k == 'negative' and n > 1:
                    r[0] = -rnd.choice([5, 10 ** 4, 10 ** 7])
                elif k == 'above' and n > 1:
                    r[0] = one + 10 ** 6
                elif k == 'zero':
                    r[-1] = 0
                elif k == 'middle' and n > 2:
                    r[n // 2], r[n // 2 - 1] = r[n // 2 - 1], r[n // 2]
                a = np.array(rows, dtype=float) / one
                if k == 'nan':
                    a[rnd.randrange(h), rnd.randrange(n)] = np.nan
                    nan = True
                if k == 'shape' or rnd.random() < .2:
                    a = a.reshape((1, h, n))
                if h == 1 and rnd.random() < .5:
                    a = a.reshape((n,))
                try:
                    with redirect_stdout(io.StringIO()):
                        acc = df.check_valid_cdf(a) is True
                except ValueError:
                    acc = False
                t.add('valid', cdfs=rows, nan=nan, accepted=acc)
            for _ in range(8):
                n, h = rnd.choice([1, 2, 4]), rnd.choice([1, 3])
                what = rnd.choice(['pdf', 'cdf'])
                rows = []
                for _ in range(h):
                    tot = rnd.choice([1000, 1000, 950, 1050, 990, 800, 1200, 0, 1099, 901])
                    cuts = sorted(rnd.randrange(tot + 1) for _ in range(n - 1))
                    c = cuts + [tot]
                    rows.append(c if what == 'cdf' else [b - a for a, b in zip([0] + cuts, c)])
                a = np.array(rows, dtype=float) / 1000
                s = a.shape
                if rnd.random() < .3:
                    a = a.reshape((h, 1, n))
                try:
                    got = (df.rescale_pdf if what == 'pdf' else df.rescale_cdf)(a)
                    acc = got.shape == a.shape
                    got = [[qr(x, 10000) for x in r] for r in got.reshape(s)]
                except ValueError:
                    acc, got = False, []
                t.add('rescale', what=what, rows=rows, accepted=bool(acc), got=got)


def given(s, us, D, size):
    n = 1 if size is None else int(np.prod(size))
    v = np.array(us[:n]) / (2 * D)
    s.done = n == len(us)
    if n != len(us):
        s.other = True
        return s._orig(size=size)
    return v.reshape(size)


if __name__ == "__main__":
    main(drive)
