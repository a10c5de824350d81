"""Semi-Markov activity simulators on made-up matrices and durations (C07)."""
import datetime as dt
import random
import warnings
import numpy as np
from vf import main, ql
from chainlib import Data, STARTS, when, matrix_set, dense, duration_set, dense_durations
from demod.utils.subgroup_handling import Subgroup
from demod.simulators.activity_simulators import SemiMarkovSimulator, SubgroupsIndividualsActivitySimulator

warnings.simplefilter('ignore')


def individuals(rec, name, rnd, kind, steps):
    start = rnd.choice(STARTS) + dt.timedelta(days=rnd.choice([0, 0, 1, 2, 3, 4, 5, 6]))
    with rec.trace(name, tables=[], flags=[], skip=0, aware=False, refresh=240, timed=True, units=0, byprev=False) as t:
        data = Data(rnd, kind, lost=rnd.choice([0, .3]))
        data.byprev = rnd.random() < .5
        flags = rnd.choice([['weekend'], ['satsun'], ['seven'], ['quarter'], ['weekend', 'quarter'], []])
        pool = [{'n_residents': 1, 'household_type': 1}, {'n_residents': 2, 'household_type': 2},
                {'n_residents': 3, 'household_type': 4}, {'n_residents': 2, 'geographic_state': 3},
                {'n_residents': 1, 'household_type': 1, 'age': 7}]
        sgs = [dict(x) for x in rnd.sample(pool, rnd.randint(1, 2))]
        nh = [rnd.choice([0, 1, 2, 3, 4]) for _ in sgs]
        nh[-1] = max(nh[-1], 1)
        sim = SubgroupsIndividualsActivitySimulator(
            [Subgroup(x) for x in sgs], nh, subsimulator=SemiMarkovSimulator, data=data, start_datetime=start,
            use_week_ends_days='weekend' in flags, use_week_sat_sun='satsun' in flags, use_7days='seven' in flags,
            use_quarters='quarter' in flags)
        look = lambda: [int(v) for s in sim.simulators for v in s.state_labels[s.current_states]]
        first = start.replace(hour=4, minute=0)
        if first > start:
            first -= dt.timedelta(days=1)
        t.add('ready', w=when(first), k=(start - first) // dt.timedelta(minutes=10), x=look())
        now = start
        for _ in range(steps):
            sim.step()
            t.add('step', w=when(now), x=look())
            now += dt.timedelta(minutes=10)
        t.cfg.update(tables=data.tables(), flags=flags, skip=1, aware=bool(flags), byprev=data.byprev,
                     units=sum(x['n_residents'] * n for x, n in zip(sgs, nh)))


def untimed(rec, name, rnd, kind):
    n, s, units = rnd.choice([1, 2, 3, 7, 20]), rnd.choice([1, 2, 4, 9]), rnd.choice([1, 2, 30])
    byprev = rnd.random() < .5
    ms = matrix_set(rnd, n, s, kind)
    ds = duration_set(rnd, n, s, kind, byprev)
    first = duration_set(rnd, 1, s, kind, False)[0][0]
    labels = [100 + i for i in range(s)]
    init = rnd.sample(range(s), 1 if kind == 'perm' else rnd.randint(1, s))
    pdf = np.zeros(s)
    pdf[init] = 1. / len(init)
    k = rnd.choice([0, 0, 1, n, n + 1, 2 * n + 3])
    with rec.trace(name, tables=[{'init': [labels[i] for i in init], 'idur': first, 'keys': [
            {'wd': 0, 'q': 0, 'labels': labels, 'm': [[[j + 1 for j in r] for r in m] for m in ms], 'd': ds}]}],
            flags=[], skip=1, aware=False, refresh=0, timed=False, units=units, byprev=byprev) as t:
        sim = SemiMarkovSimulator(units, s, dense(rnd, ms, s), dense_durations(ds, byprev), labels=np.array(labels))
        kw = {'start_time_step': k} if k else {}
        sim.initialize_starting_state(pdf, dense_durations([[first]], False)[0], **kw)
        look = lambda: [int(v) for v in np.asarray(sim.state_labels)[sim.current_states]]
        t.add('ready', w=0, k=k, x=look())
        for i in range(2 * n + 30):
            sim.step()
            t.add('step', w=k + i, x=look())


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    none = dict(tables=[], flags=[], skip=1, aware=False, refresh=0, timed=False, units=1, byprev=False)
    if inp.get('beh'):
        with rec.trace('design', **none) as t:
            for b in inp['beh']:
                s = len(b['mats'][0])
                a = np.zeros((len(b['mats']), s, s))
                for p, m in enumerate(b['mats']):
                    for i, j in enumerate(m):
                        a[p, i, j - 1] = 1.
                ds = [[[[d[i]] for _ in range(s)] for i in range(s)] if b['byprev'] else [[[x] for x in d]] for d in b['durs']]
                pdf = np.zeros(s)
                pdf[b['init'][0] - 1] = 1.
                h = rnd.choice([1, 3])
                sim = SemiMarkovSimulator(h, s, a, dense_durations(ds, b['byprev']))
                sim.initialize_starting_state(pdf, dense_durations([[[[b['init'][1]]] * s]], False)[0])
                seen = [ql(sim.current_states, h)]
                for _ in b['seen'][1:]:
                    sim.step()
                    seen.append(ql(sim.current_states, h))
                t.add('run', seen=seen, want=[[x - 1] * h for x in b['seen']])
    for i in range(inp['untimed']):
        untimed(rec, 'untimed/%d' % i, rnd, ['perm', 'many'][i % 2])
    for i in range(inp['timed']):
        individuals(rec, 'individuals/%d' % i, rnd, rnd.choice(['perm', 'perm', 'many']),
                    rnd.choice([150, 300, 440]) if i % 3 else 20)
    if inp.get('spread'):
        with rec.trace('spread', **none) as t:
            half = np.full((3, 2, 2), .5)
            dur = np.zeros((3, 2, 4))
            dur[:, :, 1:3] = .5
            sim = SemiMarkovSimulator(64, 2, half, dur)
            sim.initialize_starting_state(np.array([1., 0.]), dur[0])
            for _ in range(4):
                sim.step()
                t.add('spread', x=ql(sim.current_states))


if __name__ == "__main__":
    main(drive)
