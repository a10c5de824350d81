"""Small simulators built on the base classes, driven through the schedules TLC printed (C03, C04)."""
import datetime as dtm
import random
import numpy as np
from vf import main, ql, q
from demod.simulators.base_simulators import (
    Simulator, TimeAwareSimulator, MultiSimulator, SimLogger, cached_getter)

T0 = dtm.datetime(2014, 3, 31, 23, 58)
STEP = dtm.timedelta(minutes=1)


def val(i, k):
    return 7 * k * k + 100 * k + i * (k + 1)


class Getters:
    off = 0

    @cached_getter
    def get_x(self):
        return self._x.copy()

    def get_y(self):
        return 2 * self._x + 1

    @cached_getter
    def get_d(self):
        return {'p': self._x.copy(), 'q': 2 * self._x + 1}

    def _set(self):
        self._x = np.array([val(i + self.off, self.level) for i in range(self.n_households)])


class Plain(Getters, Simulator):
    def __init__(self, n, logger=None, initk=0, off=0):
        super().__init__(n, logger=logger)
        self.off, self.level = off, 0
        self._set()
        self.initialize_starting_state(initk)

    def step(self):
        self.level += 1
        self._set()
        super().step()


class Timed(Getters, TimeAwareSimulator):
    def __init__(self, n, logger=None, initk=0, off=0):
        super().__init__(n, start_datetime=T0 + initk * STEP, step_size=STEP, logger=logger)
        self.off, self.level = off, 0
        self._set()
        self.initialize_starting_state(initialization_time=T0)

    def step(self):
        self.level += 1
        self._set()
        super().step()


class Multi(MultiSimulator):
    def __init__(self, n, logger=None, initk=0, part_logger=None):
        sizes = [1, n - 1] if n > 1 else [1]
        parts, o = [], 0
        for z in sizes:
            parts.append(Plain(z, logger=part_logger, off=o))
            o += z
        super().__init__(parts, logger=logger)
        self.initialize_starting_state(initk)

    @property
    def level(self):
        return self.simulators[0].level


def rec_of(v):
    if isinstance(v, dict):
        return {k: ql(np.atleast_1d(x)) for k, x in v.items()}
    if isinstance(v, dtm.datetime):
        return {'v': [int((v - T0) / STEP)]}
    return {'v': ql(np.atleast_1d(v))}


def recs_of(out):
    if isinstance(out, dict):
        keys = list(out)
        return [rec_of({k: out[k][i] for k in keys}) for i in range(len(out[keys[0]]))]
    return [rec_of(x) for x in out.tolist()] if out.dtype == object else [rec_of(x) for x in out]


KINDS = {'plain': Plain, 'timed': Timed, 'multi': Multi}


def play(rec, name, kind, n, attrs, aggregated, hist, observed_getters):
    initk = hist.count('init')
    agg = [a for i, a in enumerate(attrs) if (aggregated if isinstance(aggregated, bool) else aggregated[i])
           and a != 'current_time']
    with rec.trace(name, n=n, initk=initk, attrs=attrs, agg=agg, kind=kind) as t:
        logger = SimLogger(list(attrs), aggregated=aggregated)
        kw = {}
        if kind == 'multi' and initk == 0 and set(attrs) <= {'get_x', 'get_y', 'level'}:
            kw['part_logger'] = logger
        sim = KINDS[kind](n, logger=logger, initk=initk, **kw)
        t.add('ready', count=sim.current_time_step)
        gi = 0
        for op in hist:
            if op == 'init':
                continue
            if op == 'step':
                sim.step()
                t.add('step', count=sim.current_time_step)
            elif op == 'log':
                for a in attrs:
                    t.add('log', attr=a, recs=recs_of(sim.logger.get(a)))
                t.add('len', n=sim.logger.length)
            elif op == 'clear':
                if gi % 3 == 0:
                    sim.logger.clear()
                    t.add('clear', attrs=[])
                elif gi % 3 == 1:
                    sim.logger.clear(attrs[-1])
                    t.add('clear', attrs=[attrs[-1]])
                else:
                    sim.logger.clear(list(attrs[:1]))
                    t.add('clear', attrs=list(attrs[:1]))
                gi += 1
            else:
                g = observed_getters[int(op[1:]) - 1]
                t.add('get', g=g, i=-1, v=rec_of(getattr(sim, g)()))
                if g == 'get_x':
                    i = gi % n
                    t.add('get', g=g, i=i, v=rec_of(getattr(sim, g)(i)))
                gi += 1
        for a in attrs:
            t.add('log', attr=a, recs=recs_of(sim.logger.get(a)))
        if 'part_logger' in kw:
            o = 0
            for p in sim.simulators:
                for a in attrs:
                    t.add('part', attr=a, off=o, n=p.n_households, recs=recs_of(p.logger.get(a)))
                o += p.n_households
        t.add('orig', n=logger.length, recs=sum(len(logger.get(a)) if not isinstance(logger.get(a), dict) else 1
                                                for a in attrs), same=sim.logger is logger)
        c = sim.logger.copy()
        t.add('copy', n=c.length, recs=sum(len(np.atleast_1d(c.get(a))) for a in attrs),
              attrs=list(c.attributes_list))
        try:
            c.get()
            refused = False
        except ValueError:
            refused = True
        try:
            c.get('no_such_thing')
            unknown = False
        except ValueError:
            unknown = True
        t.add('default', refused=refused, unknown=unknown)


def merge(rec, name, na, nb, a1, a2, g1, g2, kind='plain'):
    with rec.trace(name, n=2, initk=0, attrs=[], agg=[]) as t:
        A = KINDS[kind](2, logger=SimLogger(list(a1), aggregated=g1))
        B = KINDS[kind](3, logger=SimLogger(list(a2), aggregated=g2))
        for _ in range(na):
            A.step()
        for _ in range(nb):
            B.step()
        before = [[a, recs_of(A.logger.get(a))] for a in a1] + [[a, recs_of(B.logger.get(a))] for a in a2]
        la, lb = A.logger.length, B.logger.length
        try:
            m = A.logger + B.logger
            refused = False
        except ValueError:
            refused, m = True, None
        t.add('merge', la=la, lb=lb, refused=refused, before=before,
              after=[] if refused else [[a, recs_of(m.get(a))] for a in a1 + a2], n=0 if refused else m.length)


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    sets = [('plain', ['get_x', 'get_y']), ('timed', ['current_time', 'get_x', 'get_d']), ('plain', ['get_d']),
            ('multi', ['get_x', 'level']), ('timed', ['get_d', 'level', 'current_time']), ('multi', ['get_y', 'get_x']),
            ('plain', ['level']), ('timed', ['get_y', 'current_time'])]
    for i, h in enumerate(inp['beh']):
        kind, attrs = sets[i % len(sets)]
        n = 1 + (i // 8) % 4
        style = (i // 3) % 3
        aggregated = [True, False][style] if style < 2 else [rnd.random() < .5 for _ in attrs]
        og = rnd.sample(['get_x', 'get_y'] if kind == 'multi' else ['get_x', 'get_y', 'get_d'], 2)
        play(rec, 'schedule/%s/%d' % (kind, i), kind, n, attrs, aggregated, h, og)
    for i in range(inp['merges']):
        na = rnd.randint(0, 3)
        nb = na if rnd.random() < .6 else rnd.randint(0, 3)
        s = rnd.choice([(['get_x'], ['get_y']), (['get_x', 'level'], ['get_d']), (['get_d', 'get_y'], ['get_x'])])
        merge(rec, 'merge/%d' % i, na, nb, s[0], s[1], rnd.random() < .5, rnd.random() < .5)


if __name__ == "__main__":
    main(drive)
