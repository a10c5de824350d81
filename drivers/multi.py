"""Multi simulators over every split TLC printed (C05), and nested, random ones."""
import random
import numpy as np
from vf import main, ql
from demod.simulators.base_simulators import Simulator, MultiSimulator, cached_getter


class Part(Simulator):
    def __init__(self, n, subgroup=None, n_residents=None):
        super().__init__(n)
        self.subgroup = {} if subgroup is None else subgroup
        if n_residents is not None:
            self.n_residents = n_residents
        self.acc = np.zeros(n, dtype=np.int64)
        self.initialize_starting_state()

    def step(self, a=None, b=None, c=None):
        z = np.zeros(self.n_households, dtype=np.int64)
        for x in (a, b, c):
            assert x is None or len(x) == self.n_households, "argument of another length than the part"
        self.acc = 3 * self.acc + (z if a is None else np.asarray(a)) + 10 * (z if b is None else np.asarray(b)) \
            + 100 * (z if c is None else np.asarray(c))
        super().step()

    @cached_getter
    def get_acc(self):
        return self.acc

    def get_double(self):
        return 2 * self.acc

    @cached_getter
    def get_flag(self):
        return (self.acc % 2).astype(bool)


def pairs(sub):
    return ["%s%s" % (k, v) for k, v in sub.items()]


def unpair(ps):
    return {p[0]: int(p[1:]) for p in ps}


def leaves(sim):
    return [x for s in sim.simulators for x in (leaves(s) if isinstance(s, MultiSimulator) else [s])]


def play(rec, name, sizes, groups, npos, kw, rnd, steps, wants, nest=False, residents=False, aslist=False):
    with rec.trace(name, sizes=sizes, groups=groups) as t:
        res = [rnd.randint(1, 5) for _ in sizes]
        parts = [Part(z, unpair(g), r if residents else None) for z, g, r in zip(sizes, groups, res)]
        if nest and len(parts) > 1:
            sim = MultiSimulator([MultiSimulator(parts[:1]), MultiSimulator(parts[1:])])
            for s in sim.simulators:
                s.initialize_starting_state()
        else:
            sim = MultiSimulator(parts)
        sim.initialize_starting_state()
        n = sum(sizes)
        t.add('make', n=int(sim.n_households), res=ql(sim.n_residents, n) if residents else [],
              wantres=[r for r, z in zip(res, sizes) for _ in range(z)] if residents else [])
        if not nest:
            for w in wants:
                t.add('mask', want=w, v=ql(sim.get_mask_subgroup(unpair(w)), n))
        for s in range(steps):
            for _ in range(rnd.randint(0, 2)):
                g = rnd.choice(['get_acc', 'get_double', 'get_flag'])
                i = rnd.choice([-1, -1, rnd.randrange(n)])
                v = getattr(sim, g)() if i < 0 else [getattr(sim, g)(i)]
                t.add('get', g=g, i=i, v=ql(v))
            mk = lambda: np.array([rnd.randint(0, 9) for _ in range(n)])
            a, b, c = mk(), mk(), mk()
            if npos < 1:
                a = np.zeros(n, int)
            if npos < 2:
                b = np.zeros(n, int)
            if kw < 1:
                c = np.zeros(n, int)
            conv = (lambda x: [int(y) for y in x]) if aslist else (lambda x: x)
            pa = [conv(a), conv(b)][:npos]
            ka = {'c': conv(c)} if kw else {}
            if npos == 1 and rnd.random() < .5:
                ka['b'] = conv(b)            # keyword where a positional one was possible
            keep = [list(x) for x in (a, b, c)]
            sim.step(*pa, **ka)
            same = keep == [list(x) for x in (a, b, c)]
            ps = leaves(sim)
            t.add('step', a=ql(keep[0]), b=ql(keep[1]), c=ql(keep[2]), count=sim.current_time_step, same=same,
                  counts=[p.current_time_step for p in ps], parts=[ql(p.acc) for p in ps])
            for g in ['get_acc', 'get_double', 'get_flag']:
                t.add('get', g=g, i=-1, v=ql(getattr(sim, g)()))
            i = rnd.randrange(n)
            t.add('get', g='get_acc', i=i, v=ql([sim.get_acc(i)]))


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    wants = [[], ['a1'], ['a1', 'b1'], ['b1'], ['b2'], ['a2']]
    for i, b in enumerate(inp['beh']):
        play(rec, 'design/%d' % i, b['sizes'], b['groups'], b['npos'], b['kw'], rnd, 2, wants,
             residents=i % 3 == 0)
    for i in range(inp['random']):
        sizes = [rnd.randint(1, 6) for _ in range(rnd.randint(1, 6))]
        groups = [sorted(rnd.sample(['a1', 'b1', 'c2'], rnd.randint(0, 3))) for _ in sizes]
        if rnd.random() < .3:
            groups = [[x if x != 'c2' else 'c%d' % rnd.randint(2, 4) for x in g] for g in groups]
        play(rec, 'random/%d' % i, sizes, groups, rnd.randint(0, 2), rnd.randint(0, 1), rnd, rnd.randint(1, 6),
             [rnd.sample(['a1', 'b1', rnd.choice(['c2', 'c3'])], rnd.randint(0, 2)) for _ in range(3)],
             nest=rnd.random() < .25, residents=rnd.random() < .3, aslist=rnd.random() < .3)


if __name__ == "__main__":
    main(drive)
