"""First-order activity and occupancy simulators on made-up matrices (C06)."""
import datetime as dt
import random
import warnings
import numpy as np
from vf import main, ql
from chainlib import Data, STARTS, when, matrix_set, dense
from demod.utils.subgroup_handling import Subgroup
from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SubgroupsIndividualsActivitySimulator)
from demod.simulators.sparse_simulators import SparseTransitStatesSimulator, SubgroupsActivitySimulator
from demod.simulators.crest_simulators import Crest4StatesModel, CrestOccupancySimulator

warnings.simplefilter('ignore')

def run(rec, name, rnd, cls, kind, steps):
    start = rnd.choice(STARTS) + dt.timedelta(days=rnd.choice([0, 0, 1, 2, 3, 4, 5, 6]))
    refresh = 240
    flags, skip, aware = [], 1, True
    with rec.trace(name) as t:
        if cls == 'individuals':
            data = Data(rnd, kind, lost=rnd.choice([0, .2]))
            flags = rnd.choice([['weekend'], ['satsun'], ['seven'], ['quarter'], ['weekend', 'quarter'], []])
            pool = [{'n_residents': 1, 'household_type': 1}, {'n_residents': 2, 'household_type': 2},
                    {'n_residents': 3, 'household_type': 4}, {'n_residents': 2, 'geographic_state': 3},
                    {'n_residents': 1, 'household_type': 1, 'age': 7}]
            sgs = [dict(x) for x in rnd.sample(pool, rnd.randint(1, 3))]
            nh = [rnd.choice([0, 1, 2, 3, 4]) for _ in sgs]
            nh[-1] = max(nh[-1], 1)
            sim = SubgroupsIndividualsActivitySimulator(
                [Subgroup(x) for x in sgs], nh, subsimulator=MarkovChain1rstOrder, data=data, start_datetime=start,
                use_week_ends_days='weekend' in flags, use_week_sat_sun='satsun' in flags, use_7days='seven' in flags,
                use_quarters='quarter' in flags)
            units = sum(x['n_residents'] * n for x, n in zip(sgs, nh))
            aware = bool(flags)
            look = lambda: [int(v) for s in sim.simulators for v in s.state_labels[s.current_states]]
        elif cls in ('sparse', 'sparse_multi'):
            data = Data(rnd, kind, lost=.4, sparse=True)
            skip = 0
            kw = rnd.choice([{}, {'use_quarters': True}, {'use_7days': True, 'use_week_ends_days': False},
                             {'use_week_ends_days': False}, {'use_week_ends_days': False, 'use_quarters': True},
                             {'use_7days': True, 'use_week_ends_days': False, 'use_quarters': True}])
            flags = (['seven'] if kw.get('use_7days') else ['weekend'] if kw.get('use_week_ends_days', True) else [])
            flags += ['quarter'] if kw.get('use_quarters') else []
            if cls == 'sparse':
                units = rnd.randint(1, 12)
                sg = {'n_residents': rnd.choice([1, 2, 3])}
                keep = dict(sg)
                sim = SparseTransitStatesSimulator(units, sg, data=data, start_datetime=start, **kw)
                look = lambda: [int(v) for v in sim.state_labels[sim.current_states]]
            else:
                sgs = [{'n_residents': x} for x in rnd.sample([1, 2, 3, 4], rnd.randint(1, 3))]
                nh = [rnd.choice([0, 1, 3, 5]) for _ in sgs]
                nh[0] = max(nh[0], 1)
                sim = SubgroupsActivitySimulator(sgs, nh, data=data, start_datetime=start, **kw)
                units = sum(nh)
                look = lambda: [int(v) for s in sim.simulators for v in s.state_labels[s.current_states]]
        else:
            refresh = 0
            res = sorted(rnd.sample([1, 2, 3], rnd.randint(1, 3)))
            pdf = np.array([rnd.choice([1, 2, 5]) for _ in res], dtype=float)
            data = Data(rnd, kind, refresh=dt.time(0), lost=0, crest=(res, pdf / pdf.sum()))
            flags = ['weekend']
            units = rnd.randint(1, 12)
            kw = rnd.choice([{}, {'population_sampling_algo': 'monte_carlo'}])
            sim = Crest4StatesModel(units, data=data, start_datetime=start, **kw)
            look = lambda: [int(v) + 100 * int(s.n_residents) for s in sim.simulators
                            for v in s.state_labels[s.current_states]]
        first = start.replace(hour=refresh // 60, minute=0)
        if first > start:
            first -= dt.timedelta(days=1)
        t.add('ready', w=when(first), k=(start - first) // dt.timedelta(minutes=10), x=look())
        now = start
        for _ in range(steps):
            sim.step()
            t.add('step', w=when(now), x=look())
            now += dt.timedelta(minutes=10)
        t.cfg.update(tables=data.tables(), flags=flags, skip=skip, aware=aware, refresh=refresh, timed=True, units=units)
    if 'tables' not in t.cfg:
        t.cfg.update(tables=[], flags=[], skip=0, aware=False, refresh=0, timed=True, units=0)


def untimed(rec, name, rnd, kind):
    """The chains alone: no clock, matrices used in cyclic order."""
    n, s, units = rnd.choice([1, 2, 3, 7, 20]), rnd.choice([1, 2, 4, 9]), rnd.choice([1, 2, 30])
    ms = matrix_set(rnd, n, s, kind)
    a = dense(rnd, ms, s)
    labels = [100 + i for i in range(s)]
    rnd.shuffle(labels)
    init = rnd.sample(range(s), 1 if kind == 'perm' else rnd.randint(1, s))
    pdf = np.zeros(s)
    pdf[init] = 1. / len(init)
    k = rnd.choice([0, 0, 1, n, n + 1, 2 * n + 3])
    with rec.trace(name, tables=[{'init': [labels[i] for i in init], 'keys': [
            {'wd': 0, 'q': 0, 'labels': labels, 'm': [[[j + 1 for j in r] for r in m] for m in ms]}]}],
            flags=[], skip=1, aware=False, refresh=0, timed=False, units=units) as t:
        keep = a.copy()
        sim = MarkovChain1rstOrder(units, s, a, labels=np.array(labels))
        if k:
            sim.initialize_starting_state(pdf, start_time_step=k)
        else:
            sim.initialize_starting_state(pdf)
        look = lambda: [int(v) for v in np.asarray(sim.state_labels)[sim.current_states]]
        t.add('ready', w=0, k=k, x=look())
        for i in range(2 * n + 3):
            sim.step()
            t.add('step', w=k + i, x=look())


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    if inp.get('beh'):
        with rec.trace('design', tables=[], flags=[], skip=1, aware=False, refresh=0, timed=False, units=1) as t:
            for b in inp['beh']:
                a = np.zeros((len(b['mats']), 3, 3))
                for p, m in enumerate(b['mats']):
                    for i, j in enumerate(m):
                        a[p, i, j - 1] = 1.
                pdf = np.zeros(3)
                pdf[b['init']] = 1.
                h = rnd.choice([1, 3])
                sim = MarkovChain1rstOrder(h, 3, a)
                sim.initialize_starting_state(pdf)
                seen = [ql(sim.current_states, h)]
                for _ in b['seen'][1:]:
                    sim.step()
                    seen.append(ql(sim.current_states, h))
                t.add('run', seen=seen, want=[[x] * h for x in b['seen']])
    for i in range(inp['untimed']):
        untimed(rec, 'untimed/%d' % i, rnd, ['perm', 'many'][i % 2])
    for i in range(inp['timed']):
        cls = ['individuals', 'sparse', 'sparse_multi', 'crest'][i % 4]
        run(rec, '%s/%d' % (cls, i), rnd, cls, rnd.choice(['perm', 'perm', 'many']),
            rnd.choice([150, 300, 440]) if i % 3 else 20)
    if inp.get('spread'):
        with rec.trace('spread', tables=[], flags=[], skip=1, aware=False, refresh=0, timed=False, units=1) as t:
            half = np.full((3, 2, 2), .5)
            sim = MarkovChain1rstOrder(64, 2, half)
            sim.initialize_starting_state(np.array([1., 0.]))
            for _ in range(4):
                sim.step()
                t.add('spread', x=ql(sim.current_states))
            sim.initialize_starting_state(np.array([.5, .5]))
            t.add('spread', x=ql(sim.current_states))


if __name__ == "__main__":
    main(drive)
