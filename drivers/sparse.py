"""SparseTPM through the operation sequences TLC printed, and random ones (C08)."""
import itertools
import os
import random
import tempfile
import warnings
import numpy as np
from vf import main, q, ql, qm
from scripted import Scripted, U
from demod.utils.sparse import SparseTPM

warnings.simplefilter('ignore')


def build(mats, D, order, dead, rnd, explicit=True):
    e = [(t, i, j, mats[t][i][j] / D) for t in range(len(mats)) for i in range(len(mats[0]))
         for j in range(len(mats[0])) if mats[t][i][j]]
    if order == 'shuffled':
        rnd.shuffle(e)
    elif order == 'columns':
        e.sort(key=lambda x: (x[0], x[2], x[1]))
    elif order == 'reversed':
        e.reverse()
    c = [np.array([x[k] for x in e]) for k in range(4)]
    if order == 'lists':
        c = [list(x) for x in c]
    return SparseTPM(c[0], c[1], c[2], c[3], n_states=len(mats[0]), n_times=len(mats), dead_state_value=dead)


class Session:
    def __init__(self, rec, name, mats, D, order, dead, rnd):
        self.D, self.rnd, self.dead = D, rnd, dead
        self.ns, self.nt = len(mats[0]), len(mats)
        self.mats = [[list(r) for r in m] for m in mats]
        self.t = rec.trace(name, mats=self.mats, dead=-1 if dead is None else dead, D=D)
        self.order = order

    def go(self, ops):
        rnd = self.rnd
        with self.t as t:
            tpm = build(self.mats, self.D, self.order, self.dead, rnd)
            cur = [[list(r) for r in m] for m in self.mats]
            for op in ops:
                k = op[0]
                if k == 'save':
                    d = tempfile.mkdtemp(dir=os.environ['HOME'])
                    p = os.path.join(d, 'x')
                    tpm.save(p)
                    other = SparseTPM.load(p)
                    if rnd.random() < .7:
                        tpm = other
                    t.add('size', shape=[int(x) for x in other.shape], nt=int(other.n_times), ns=int(other.n_states),
                          dead=-1 if other.dead_state_value is None else int(other.dead_state_value))
                elif k == 'iterate':
                    t.add('iter', ms=[qm(m, (self.ns, self.ns), self.D) for m in tpm])
                    t.add('nest', n=sum(1 for _ in itertools.product(tpm, tpm)) if rnd.random() < .5
                          else sum(1 for _ in tpm for _ in tpm))
                elif k == 'sample':
                    self.sample(t, tpm, cur)
                elif k == 'refuse':
                    try:
                        tpm[0] = np.zeros((self.ns + 1, self.ns))
                        r = False
                    except ValueError:
                        r = True
                    t.add('refuse', refused=r)
                else:
                    time, m = op
                    time += rnd.choice([0, 0, self.nt, -self.nt])
                    a = np.array(m, dtype=float) / self.D
                    tpm[time] = a
                    a[:] = 0.125
                    cur[time % self.nt] = m
                    t.add('assign', time=time, m=m)
                for time in range(self.nt):
                    w = time + rnd.choice([0, 0, self.nt, 2 * self.nt, -self.nt])
                    r = tpm[w]
                    t.add('read', time=w, m=qm(r, (self.ns, self.ns), self.D))
                    r[:] = 0.5

    def sample(self, t, tpm, cur):
        rnd = self.rnd
        for time in range(self.nt):
            alive = [i for i in range(self.ns) if sum(cur[time][i])]
            if self.dead is not None and self.dead in alive and rnd.random() < .7:
                alive = list(range(self.ns))
            if not alive:
                continue
            n = rnd.choice([1, 2, 5, 9])
            states = np.array([rnd.choice(alive) for _ in range(n)])
            unit = U // self.D
            u = [rnd.choice([0, U - 1, rnd.randrange(self.D) * unit, rnd.randrange(self.D) * unit + unit // 2,
                             rnd.randrange(1, self.D + 1) * unit - 1]) for _ in range(n)]
            # one below a boundary is only exactly representable, never rounded: k*unit - 1 over U is dyadic
            w = time + rnd.choice([0, self.nt, 3 * self.nt])
            keep = states.copy()
            with Scripted(u) as s:
                out = tpm.sparse_monte_carlo(w, states)
            t.add('sample', time=w, states=ql(keep), out=ql(out), same=bool(np.array_equal(keep, states)))
            live = [i for i in range(self.ns) if sum(cur[time][i])]
            if live and self.D <= 16:
                x = rnd.choice(live)
                states = np.full(self.D, x)
                with Scripted([k * unit + unit // 2 for k in range(self.D)]) as s:
                    out = tpm.sparse_monte_carlo(time, states)
                t.add('sweep', time=time, state=x, out=ql(out), scripted=s.used())


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    A, B = [[4, 0], [1, 3]], [[0, 4], [4, 0]]
    orders = ['sorted', 'shuffled', 'columns', 'reversed', 'lists']
    for i, b in enumerate(inp['beh']):
        Session(rec, 'design/%d' % i, [A, B], 4, orders[i % 5], [None, 1][i % 2], rnd).go(b['ops'] + [['sample']])
    for i in range(inp['random']):
        ns, nt, D = rnd.randint(1, 6), rnd.randint(1, 4), rnd.choice([2, 8, 16, 64])

        def row(zero):
            if zero:
                return [0] * ns
            r = [0] * ns
            for _ in range(D):
                r[rnd.choice(sup)] += 1
            return r

        def mat():
            m = []
            for j in range(ns):
                nonlocal_sup(rnd.sample(range(ns), rnd.randint(1, ns)))
                m.append(row(rnd.random() < .15))
            return m
        sup = list(range(ns))

        def nonlocal_sup(x):
            sup[:] = x
        mats = [mat() for _ in range(nt)]
        if not any(any(r) for m in mats for r in m):
            mats[0][0] = [D] + [0] * (ns - 1)
        ops = []
        for _ in range(rnd.randint(1, 6)):
            ops.append(rnd.choice([['save'], ['iterate'], ['sample'], ['sample'], ['refuse'],
                                   [rnd.randrange(nt), mat()], [rnd.randrange(nt), mat()]]))
        Session(rec, 'random/%d' % i, mats, D, rnd.choice(orders), rnd.choice([None, rnd.randrange(ns)]), rnd).go(
            ops + [['sample'], ['save'], ['sample']])
    # large sets of rows that do not add up exactly: the draws stay in their row
    for i in range(inp['large']):
        with rec.trace('large/%d' % i, mats=[], dead=-1) as t:
            ns = rnd.choice([40, 150])
            m = (np.random.uniform(size=(ns, ns)) < .1) * np.random.uniform(size=(ns, ns))
            m[np.arange(ns), rnd.randrange(ns)] += .01
            m /= m.sum(axis=1)[:, None]
            mask = (m > 0).astype(int).tolist()
            t.cfg['mats'] = [mask]
            f, to = np.nonzero(m)
            tpm = SparseTPM(np.zeros_like(f), f, to, m[f, to])
            states = np.random.randint(0, ns, size=400)
            if i % 3 == 0:
                u = [rnd.choice([0, U - 1]) for _ in states]
                with Scripted(u) as s:
                    out = tpm.sparse_monte_carlo(0, states.copy())
            else:
                out = tpm.sparse_monte_carlo(0, states.copy())
            t.add('sample', time=0, states=ql(states), out=ql(out), same=True)
    with rec.trace('lengths', mats=[[[1]]], dead=-1) as t:
        for lens in itertools.product(range(0, 4), repeat=4):
            try:
                SparseTPM(*[np.zeros(x, dtype=int) for x in lens[:3]], np.ones(lens[3]))
                r = False
            except ValueError:
                r = True
            t.add('lens', lens=list(lens), refused=r)
    # sets whose last states or times have no transition
    for i, (nt, ns) in enumerate(itertools.product((1, 2, 3), (2, 3))):
        mats = [[[1] + [0] * (ns - 1)] + [[0] * ns for _ in range(ns - 1)]] + [[[0] * ns for _ in range(ns)]] * (nt - 1)
        Session(rec, 'sparse_size/%d' % i, mats, 1, 'sorted', [None, 0][i % 2], rnd).go([['save'], ['iterate'], ['save']])
    with rec.trace('empty', mats=[[[0] * 2] * 2] * 2, dead=-1) as t:
        tpm = SparseTPM([], [], [], [], n_states=2, n_times=2)
        t.add('size', shape=[int(x) for x in tpm.shape], nt=int(tpm.n_times), ns=int(tpm.n_states), dead=-1)
        tpm[1] = np.eye(2)
        t.add('assign', time=1, m=[[1, 0], [0, 1]])
        for k in (0, 1):
            t.add('read', time=k, m=qm(tpm[k], (2, 2)))


if __name__ == "__main__":
    main(drive)
