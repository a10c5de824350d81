"""Made-up transition matrices and the loader that hands them out."""
import datetime as dt
import random
import numpy as np
from demod.utils.sparse import SparseTPM

N = 144


def matrix_set(rnd, n, s, kind, dead=False):
    """n matrices over s states: lists of successor lists (0-based)."""
    r = []
    for _ in range(n):
        m = []
        p = list(range(s))
        rnd.shuffle(p)
        for i in range(s):
            if kind == 'perm':
                m.append([p[i]])
            else:
                m.append(sorted(rnd.sample(range(s), min(s, rnd.choice([1, 1, 2, 3])))))
        if dead and s > 1:
            m[rnd.randrange(1, s)] = []
        r.append(m)
    return r


def dense(rnd, ms, s):
    a = np.zeros((len(ms), s, s))
    for p, m in enumerate(ms):
        for i, r in enumerate(m):
            if r:
                w = np.array([rnd.choice([1, 2, 5]) for _ in r], dtype=float)
                a[p, i, r] = w / w.sum()
    return a


DMAX = 40


def duration_set(rnd, n, s, kind, byprev):
    """Durations of positive probability per time, previous state (one row if it does not matter) and new state."""
    one = lambda: sorted(rnd.sample([0, 1, 2, 3, 4, 6, 13, DMAX - 1], 1 if kind == 'perm' else rnd.randint(1, 3)))
    return [[[one() for _ in range(s)] for _ in range(s if byprev else 1)] for _ in range(n)]


def dense_durations(ds, byprev):
    a = np.zeros((len(ds), len(ds[0]), len(ds[0][0]), DMAX))
    for p, rows in enumerate(ds):
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[p, i, j, v] = 1. / len(v)
    return a if byprev else a[:, 0]


def wd_code(v):
    if v is None or v == 0:
        return 0
    if isinstance(v, (list, tuple)):
        return 8 if list(v) == [1, 2, 3, 4, 5] else 9 if list(v) == [6, 7] else 99
    return int(v)


class Data:
    """Stands for a dataset loader: matrices made up per subgroup and day type."""

    def __init__(self, rnd, kind, refresh=dt.time(4), lost=.2, sparse=False, crest=None):
        self.rnd, self.kind, self.refresh_time, self.lost, self.sparse = rnd, kind, refresh, lost, sparse
        self.crest = crest
        self.bases, self.keys, self.init = {}, {}, {}
        self.byprev, self.durs, self.idur = False, {}, {}

    def base(self, subgroup):
        b = tuple(sorted((k, str(v)) for k, v in subgroup.items() if k not in ('weekday', 'quarter')))
        if b not in self.bases:
            self.bases[b] = len(self.bases) + 1
        return self.bases[b]

    def get(self, subgroup):
        b = int(subgroup['n_residents']) if self.crest else self.base(subgroup)
        k = (b, wd_code(subgroup.get('weekday')), int(subgroup.get('quarter') or 0))
        if k not in self.keys:
            rnd = self.rnd
            if self.crest:
                labels = [100 * b + 10 * o + a for o in range(b + 1) for a in range(b + 1)]
            else:
                labels = [100 * b + x for x in range(4)]
                if rnd.random() < self.lost:
                    labels.remove(rnd.choice(labels))
                rnd.shuffle(labels)
            ms = matrix_set(rnd, N, len(labels), self.kind, self.sparse and rnd.random() < .3)
            self.keys[k] = (labels, ms, dense(rnd, ms, len(labels)))
        labels, ms, a = self.keys[k]
        if b not in self.init:
            self.init[b] = [self.rnd.choice(labels)] if self.kind == 'perm' else self.rnd.sample(labels, 2)
        pdf = np.zeros(len(labels))
        for x in self.init[b]:
            if x in labels:
                pdf[labels.index(x)] = 1
        if not pdf.sum():
            pdf[0] = 1
            if not k[1] and not k[2]:
                self.init[b] = [labels[0]]
        return labels, a, pdf / pdf.sum()

    def load_tpm(self, subgroup):
        labels, a, pdf = self.get(subgroup)
        labels = np.array(labels) - (100 * int(subgroup['n_residents']) if self.crest else 0)
        return a.copy(), labels, pdf

    def load_tpm_with_duration(self, subgroup):
        labels, a, pdf = self.get(subgroup)
        b = self.base(subgroup)
        k = (b, wd_code(subgroup.get('weekday')), int(subgroup.get('quarter') or 0))
        if k not in self.durs:
            self.durs[k] = duration_set(self.rnd, len(a), len(labels), self.kind, self.byprev)
        if b not in self.idur:
            self.idur[b] = duration_set(self.rnd, 1, 4, self.kind, False)[0][0]
        first = dense_durations([[self.idur[b]]], False)[0][[x % 100 for x in labels]]
        return a.copy(), dense_durations(self.durs[k], self.byprev), np.array(labels), pdf, first

    def load_sparse_tpm(self, subgroup):
        labels, a, pdf = self.get(subgroup)
        i = np.nonzero(a)
        o = self.rnd.sample(range(len(i[0])), len(i[0])) if self.rnd.random() < .5 else slice(None)
        return (SparseTPM(i[0][o], i[1][o], i[2][o], a[i][o], n_states=len(labels), n_times=N), np.array(labels),
                np.array(['HWH', 'HOH', 'active', 'sleeping']), pdf)

    def load_population_subgroups(self, population_type=None):
        return [{'n_residents': i} for i in self.crest[0]], np.array(self.crest[1]), 1000

    def tables(self):
        n = max([b for b, _, _ in self.keys])
        out = []
        for b in range(1, n + 1):
            ks = [{'wd': k[1], 'q': k[2], 'labels': v[0], 'm': [[[j + 1 for j in r] for r in m] for m in v[1]],
                   'd': self.durs.get(k, [])}
                  for k, v in self.keys.items() if k[0] == b]
            out.append({'init': self.init.get(b, []), 'idur': self.idur.get(b, []), 'keys': ks})
        return out


def when(d):
    return [d.year, d.month, d.day, d.hour * 60 + d.minute]


STARTS = [dt.datetime(2014, 1, 1, 4), dt.datetime(2014, 1, 4, 4), dt.datetime(2014, 1, 6, 3, 50), dt.datetime(2014, 3, 31, 22),
          dt.datetime(2014, 6, 30, 23, 50), dt.datetime(2014, 12, 31, 3, 50), dt.datetime(2016, 2, 28, 12), dt.datetime(2014, 1, 5, 0),
          dt.datetime(2014, 10, 1, 0, 10), dt.datetime(2014, 9, 30, 3, 50), dt.datetime(2014, 2, 28, 4, 10), dt.datetime(2015, 1, 1, 0)]


