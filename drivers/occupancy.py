"""What activity simulators report about the people in the households (C09)."""
import datetime as dt
import random
import warnings
import numpy as np
from vf import main, ql, qm
from demod.utils.sparse import SparseTPM
from demod.utils.subgroup_handling import Subgroup
from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SemiMarkovSimulator, SubgroupsIndividualsActivitySimulator)
from demod.simulators.sparse_simulators import SparseTransitStatesSimulator, SubgroupsActivitySimulator, SparseActivitySimulator
from demod.simulators.crest_simulators import Crest4StatesModel, CrestOccupancySimulator

warnings.simplefilter('ignore')
N = 144
KINDS = {(0,): {'n_residents': 1, 'household_type': 1}, (1, 2): {'n_residents': 2, 'household_type': 2},
         (1, 3): {'n_residents': 2, 'household_type': 3}, (1, 3, 3): {'n_residents': 3, 'household_type': 3},
         (1, 2, 3): {'n_residents': 3, 'household_type': 4}, (1, 2, 3, 3): {'n_residents': 4, 'household_type': 4},
         (0, 0): {'n_residents': 2}, (0, 0, 0): {'n_residents': 3}}


def kind(types, region=None):
    d = dict(KINDS[tuple(types)])
    if region:
        d['geographic_state'] = region
    return d


def type_of(sg):
    return int(sg.get('household_position', 0)) + 10 * int(sg.get('geographic_state', 0))


class Persons:
    """Loader of person matrices: rows[type] = function of (period, n) giving a matrix."""
    refresh_time = dt.time(4)

    def __init__(self, acts, matrices, init, rnd):
        self.acts, self.matrices, self.init, self.rnd, self.orders = acts, matrices, init, rnd, {}

    def load_tpm(self, subgroup):
        ty = type_of(subgroup)
        if ty not in self.orders:
            self.orders[ty] = self.rnd.sample(self.acts, len(self.acts))
        o = self.orders[ty]
        i = [self.acts.index(x) for x in o]
        m = self.matrices(ty)[:, i][:, :, i]
        return m, np.array(o), np.asarray(self.init(ty), dtype=float)[i]

    def load_tpm_with_duration(self, subgroup):
        m, o, p = self.load_tpm(subgroup)
        d = np.zeros((len(m), len(o), 5))
        d[:, :, 1:4] = 1. / 3
        return m, d, o, p, d[0]


def form(sim, acts, hh):
    st = sim.get_activity_states()
    n = [ql(sim.get_n_doing_activity(a), hh) for a in acts]
    return dict(
        n=n, dict=[ql(st[a], hh) for a in acts], dactive=ql(st['active_occupancy'], hh),
        list=[ql(x, hh) for x in sim.get_n_doing_activity(list(acts))],
        perf=[ql(sim.get_performing_activity(a), hh) for a in acts],
        occ=ql(sim.get_occupancy(), hh), active=ql(sim.get_active_occupancy(), hh))


def individuals(rec, name, rnd, steps, still):
    acts = ['away', 'sleeping'] + rnd.sample(['cooking', 'dish', 'tv', 'other'], rnd.randint(0, 4))
    rnd.shuffle(acts)
    ks = [(rnd.choice(list(KINDS)), rnd.choice([None, None, 3])) for _ in range(rnd.randint(1, 4))]
    nh = [rnd.choice([0, 1, 2, 5]) for _ in ks]
    nh[rnd.randrange(len(nh))] = rnd.choice([1, 4])
    types = [[t + 10 * (r or 0) for t in k] for (k, r), n in zip(ks, nh) for _ in range(n)]
    res = [len(x) for x in types]
    uniform = {}

    def matrices(ty):
        u = rnd.random() < .5
        if still:
            return np.broadcast_to(np.eye(len(acts)), (N, len(acts), len(acts))).copy()
        m = np.zeros((N, len(acts), len(acts)))
        for p in range(N):
            for i in range(len(acts)):
                m[p, i, rnd.sample(range(len(acts)), 1 if u else min(2, len(acts)))] = 1
            if u:
                m[p] = m[p, :1]
        return m / m.sum(2, keepdims=True)
    data = Persons(acts, matrices, lambda ty: np.full(len(acts), 1. / len(acts)), rnd)
    with rec.trace(name, acts=acts, res=res, types=types) as t:
        kw = rnd.choice([{}, {'use_week_ends_days': True}, {'use_quarters': True}])
        sub = rnd.choice([MarkovChain1rstOrder, SemiMarkovSimulator])
        sim = SubgroupsIndividualsActivitySimulator(
            [Subgroup(kind(k, r)) for k, r in ks], nh, subsimulator=sub, data=data,
            start_datetime=dt.datetime(2014, 3, rnd.randint(1, 9), rnd.choice([4, 3, 23]), rnd.choice([0, 50])), **kw)
        for i in range(steps):
            subs = {}
            for sg, s in zip(sim.subgroups_persons, sim.simulators):
                subs.setdefault(type_of(sg), []).extend(str(x) for x in np.asarray(s.state_labels)[s.current_states])
            t.add('ind', sub=[{'ty': k, 'x': v} for k, v in subs.items()], still=still, **form(sim, acts, len(res)))
            sim.step()


def design(t, b, rnd):
    acts = sorted(b['n'])
    f = {int(k): v for k, v in b['act']}
    ks = [(x['types'], x['n']) for x in b['layout']]

    def one(ty):
        m = np.zeros((N, len(acts), len(acts)))
        m[:, :, acts.index(f[ty])] = 1
        return m
    sim = SubgroupsIndividualsActivitySimulator(
        [Subgroup(kind(k)) for k, _ in ks], [n for _, n in ks], subsimulator=MarkovChain1rstOrder,
        data=Persons(acts, one, lambda ty: [1. if a == f[ty] else 0. for a in acts], rnd),
        start_datetime=dt.datetime(2014, 3, 4, 4))
    hh = len(b['occ'])
    if rnd.random() < .5:
        sim.step()
    t.add('design', n=[ql(sim.get_n_doing_activity(a), hh) for a in acts], wn=[b['n'][a] for a in acts],
          occ=ql(sim.get_occupancy(), hh), active=ql(sim.get_active_occupancy(), hh), wocc=b['occ'], wactive=b['active'])


class Transit:
    refresh_time = dt.time(4)

    def __init__(self, rnd, acts):
        self.rnd, self.acts, self.made = rnd, acts, {}

    def load_sparse_tpm(self, subgroup):
        rnd, res = self.rnd, subgroup['n_residents']
        k = (res, str(subgroup.get('weekday')), str(subgroup.get('quarter')))
        if k not in self.made:
            labels = set()
            while len(labels) < 6:
                a, b = rnd.randint(0, res), rnd.randint(0, res)
                c = {x: rnd.randint(0, res) for x in self.acts}
                c['HWH'], c['HOH'] = min(a, res - min(b, res)), min(b, res)
                labels.add(sum(c[x] * 7 ** i for i, x in enumerate(self.acts)))
                if res == 1 and len(labels) > 3:
                    break
            labels = rnd.sample(sorted(labels), len(labels))
            m = np.zeros((N, len(labels), len(labels)))
            for p in range(N):
                for i in range(len(labels)):
                    m[p, i, rnd.sample(range(len(labels)), 2)] = .5
            self.made[k] = (labels, m)
        labels, m = self.made[k]
        i = np.nonzero(m)
        return (SparseTPM(*i, m[i], n_states=len(labels), n_times=N), np.array(labels), np.array(self.acts),
                np.full(len(labels), 1. / len(labels)))


class CrestData:
    refresh_time = dt.time(0)

    def __init__(self, rnd, res, pdf):
        self.rnd, self.res, self.pdf = rnd, res, pdf

    def load_tpm(self, subgroup):
        r = int(subgroup['n_residents'])
        labels = np.array([10 * o + a for o in range(r + 1) for a in range(r + 1)])
        self.rnd.shuffle(labels)
        m = np.zeros((N, len(labels), len(labels)))
        for p in range(N):
            for i in range(len(labels)):
                m[p, i, self.rnd.sample(range(len(labels)), 2)] = .5
        return m, labels, np.full(len(labels), 1. / len(labels))

    def load_population_subgroups(self, population_type=None):
        return [{'n_residents': r} for r in self.res], np.array(self.pdf), 10


def counting(rec, name, rnd, steps, cls):
    start = dt.datetime(2014, 3, rnd.randint(1, 9), rnd.choice([4, 3, 23]), rnd.choice([0, 50]))
    if cls in ('crest', 'crest_one'):
        res = sorted(rnd.sample([1, 2, 3, 4, 5, 6], rnd.randint(1, 3)))
        data = CrestData(rnd, res, [1. / len(res)] * len(res))
        with rec.trace(name, res=[], acts=[], types=[]) as t:
            n = rnd.randint(1, 9)
            if cls == 'crest':
                sim = Crest4StatesModel(n, data=data, start_datetime=start)
                t.cfg['res'] = ql(sim.n_residents, n)
                state = lambda: ql(sim.get_states_labeled(), n)
            else:
                sim = CrestOccupancySimulator(n, res[0], rnd.choice('de'), data=data)
                t.cfg['res'] = [res[0]] * n
                state = lambda: ql(sim.state_labels[sim.current_states], n)
            for _ in range(steps):
                t.add('crest', x=state(), occ=ql(sim.get_occupancy(), n), active=ql(sim.get_active_occupancy(), n),
                      gains=ql(sim.get_thermal_gains(), n))
                sim.step()
        return
    acts = ['HWH', 'HOH', 'active'] + rnd.sample(['tv', 'cooking', 'dish'], rnd.randint(0, 2))
    rnd.shuffle(acts)
    data = Transit(rnd, acts)
    with rec.trace(name, res=[], acts=acts, types=[]) as t:
        if cls == 'transit':
            n, r = rnd.randint(1, 9), rnd.choice([1, 2, 4, 6])
            sim = SparseTransitStatesSimulator(n, {'n_residents': r}, data=data, start_datetime=start)
            t.cfg['res'] = [r] * n
            subs = [sim]
        else:
            rs = rnd.sample([1, 2, 3, 4, 6], rnd.randint(1, 3))
            ns = [rnd.choice([0, 1, 4]) for _ in rs]
            ns[0] = 2
            n = sum(ns)
            sim = SubgroupsActivitySimulator([{'n_residents': r} for r in rs], ns, data=data, start_datetime=start)
            t.cfg['res'] = [r for r, k in zip(rs, ns) for _ in range(k)]
            subs = sim.simulators
        for _ in range(steps):
            t.add('sparse', x=[int(v) for s in subs for v in s.state_labels[s.current_states]],
                  n=[ql(sim.get_n_doing_activity(a), n) for a in acts],
                  list=[ql(v, n) for v in sim.get_n_doing_state(list(acts))],
                  occ=ql(sim.get_occupancy(), n), active=ql(sim.get_active_occupancy(), n),
                  gains=ql(sim.get_thermal_gains(), n))
            sim.step()


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    if inp.get('beh'):
        with rec.trace('design', acts=[], res=[], types=[]) as t:
            for b in inp['beh']:
                design(t, b, rnd)
    for i in range(inp['n']):
        individuals(rec, 'individuals/%d' % i, rnd, 12 if i % 4 else 160, i % 3 == 2)
        cls = ['transit', 'multi', 'crest', 'crest_one'][i % 4]
        counting(rec, '%s/%d' % (cls, i), rnd, 12 if i % 3 else 160, cls)


if __name__ == "__main__":
    main(drive)
