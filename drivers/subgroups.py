"""Subgroup identities, time attributes and persons of households (C23)."""
import copy
import datetime as dt
import itertools
import random
import warnings
from vf import main
from demod.utils.subgroup_handling import (
    Subgroup, subgroup_string, remove_time_attributues, subgroup_households_to_persons, add_time)

warnings.simplefilter('ignore')
DOMAIN = {
    'n_residents': [1, 2, 3, 4, 5, 6, 12], 'household_type': [1, 2, 3, 4, 5],
    'life_situation': [1, 2, 3, 11], 'household_position': [1, 2, 3], 'gender': [1, 2],
    'age': [[18, 25], [25, 65], [2, 5], [25], [18, 2, 5]], 'hh_mean_age': [[1, 30], [13, 0], [60, 99]],
    'weekday': [[1, 2, 3, 4, 5], [6, 7], 6, 7, 1, 12, [1, 2]], 'quarter': [1, 2, 3, 4], 'geographic_state': [1, 11],
}


def enc(sg):
    r = []
    for k, v in sg.items():
        if isinstance(v, (list, tuple)):
            r.append([k, 'l', [int(x) for x in v]])
        elif isinstance(v, str):
            r.append([k, 's' + v, [0]])
        else:
            r.append([k, 'i', [int(v)]])
    return sorted(r)


def rand_sg(rnd, names=None, n=None):
    names = list(names or DOMAIN)
    rnd.shuffle(names)
    return {k: copy.deepcopy(rnd.choice(DOMAIN[k])) for k in names[:n if n is not None else rnd.randint(0, len(names))]}


def wrap(rnd, sg):
    return Subgroup(sg) if rnd.random() < .5 else sg


def text(t, rnd, sg):
    items = list(sg.items())
    rnd.shuffle(items)
    a, b = wrap(rnd, dict(sg)), wrap(rnd, dict(items))
    keep = copy.deepcopy(a)
    order = list(a)
    x = subgroup_string(a)
    t.add('text', sg=enc(sg), text=x, other=subgroup_string(b), same=a == keep and list(a) == order)


def time(t, rnd, sg, flags, d):
    a = wrap(rnd, copy.deepcopy(sg))
    when = dt.datetime(*d, rnd.choice([0, 4, 23]), rnd.choice([0, 59]))
    kw = dict(use_week_ends_days='weekend' in flags, use_week_sat_sun='satsun' in flags, use_7days='seven' in flags,
              use_quarters='quarter' in flags)
    if rnd.random() < .3:       # the defaults
        kw = {k: v for k, v in kw.items() if v != (k == 'use_week_ends_days')}
    try:
        got = add_time(a, when, **kw)
        t.add('time', sg=enc(sg), f=sorted(flags), d=list(d), refused=False, got=enc(got))
    except ValueError:
        got = None
        t.add('time', sg=enc(sg), f=sorted(flags), d=list(d), refused=True, got=[])
    return got


def remove(t, rnd, sg):
    a = wrap(rnd, sg)
    keep = copy.deepcopy(a)
    got = remove_time_attributues(a)
    t.add('remove', sg=enc(keep), got=enc(got), same=a == keep)
    return got


def household(rnd):
    sg = rand_sg(rnd, ['life_situation', 'age', 'hh_mean_age', 'weekday', 'quarter', 'geographic_state', 'gender'])
    k = rnd.randrange(7)
    if k == 0:
        sg['household_type'] = 1
        if rnd.random() < .5:
            sg['n_residents'] = 1
    elif k == 1:
        sg['household_type'] = 2
        if rnd.random() < .5:
            sg['n_residents'] = 2
    elif k == 2:
        sg.update(household_type=3, n_residents=rnd.randint(2, 7))
    elif k == 3:
        sg.update(household_type=4, n_residents=rnd.randint(3, 7))
    elif k == 4:
        sg.update(household_type=5, n_residents=rnd.randint(1, 7))
    else:
        sg.update(n_residents=rnd.randint(1, 7))
    items = list(sg.items())
    rnd.shuffle(items)
    return dict(items)


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    dates = [dt.date(2014, 1, 1) + dt.timedelta(days=i) for i in range(0, 365 * 8 + 2)]
    for i, b in enumerate(inp['beh']):
        if i % 50 == 0:
            t = rec.trace('design/%d' % (i // 50)).__enter__()
        try:
            sg = rand_sg(rnd)
            for o in b:
                if o['op'] == 'time':
                    sg = time(t, rnd, sg, o['f'], o['d'])
                else:
                    sg = remove(t, rnd, sg)
        except Exception as e:
            t.ev.append({'op': 'raised', 'exc': repr(e)[:200]})
        if i % 50 == 49 or i == len(inp['beh']) - 1:
            t.__exit__(None, None, None)
    with rec.trace('every_day') as t:
        for i, d in enumerate(dates[::1 if tier == 'thorough' else 3] + [dt.date(2000, 2, 29), dt.date(2100, 2, 28)]):
            f = [['weekend'], ['satsun'], ['seven'], ['quarter'], ['seven', 'quarter'], ['weekend', 'quarter'], []][i % 7 if i % 2 else rnd.randrange(7)]
            time(t, rnd, rand_sg(rnd), f, (d.year, d.month, d.day))
    with rec.trace('conflicts') as t:
        for n in range(5):
            for f in itertools.combinations(['weekend', 'satsun', 'seven', 'quarter'], n):
                time(t, rnd, rand_sg(rnd), f, (2019, 5, 17))
    for i in range(inp['random']):
        with rec.trace('texts/%d' % i) as t:
            names = rnd.sample(sorted(DOMAIN), 3)
            # every subgroup over three attributes
            for n in range(4):
                for ks in itertools.combinations(names, n):
                    for vs in itertools.product(*[DOMAIN[k] for k in ks]):
                        text(t, rnd, dict(zip(ks, vs)))
            for c in ({'population': 'x'}, {'population': 'y'}, {'population': 'x', 'n_residents': 1}):
                text(t, rnd, c)
        with rec.trace('persons/%d' % i) as t:
            hhs = []
            for _ in range(30):
                sg = household(rnd)
                hhs.append(sg)
                a = wrap(rnd, copy.deepcopy(sg))
                got = subgroup_households_to_persons(a)
                t.add('persons', sg=enc(sg), got=[enc(x) for x in got], same=a == sg)
            lst = [wrap(rnd, copy.deepcopy(x)) for x in hhs]
            got = subgroup_households_to_persons(lst)
            t.add('list', each=[[enc(y) for y in subgroup_households_to_persons(copy.deepcopy(x))] for x in hhs],
                  together=[[enc(y) for y in x] for x in got], same=len(lst) == len(hhs) and all(x == y for x, y in zip(lst, hhs)))
        with rec.trace('order/%d' % i) as t:
            dom = {k: [v for v in vs if isinstance(v, list) == isinstance(vs[0], list)] for k, vs in DOMAIN.items()}
            names = rnd.sample(sorted(dom), 4)
            pool = [Subgroup({k: rnd.choice(dom[k]) for k in rnd.sample(names, rnd.randint(0, 4))}) for _ in range(14)]
            for a, b in itertools.product(pool, pool):
                c = rnd.choice(pool)
                # the way numpy compares: b < a is answered by a > b
                t.add('order', a=enc(a), b=enc(b), gt=bool(a > b), lt=bool(a < b), eq=bool(a == b), bc=bool(b > c), ac=bool(a > c))
        with rec.trace('remove/%d' % i) as t:
            for _ in range(30):
                remove(t, rnd, rand_sg(rnd))


if __name__ == "__main__":
    main(drive)
