"""sample_population for the cases TLC printed and random ones (C20)."""
import io
import random
from contextlib import redirect_stdout
import numpy as np
from vf import main, q
from scripted import Scripted, U
from demod.simulators.util import sample_population


def sample(t, w, n, algo, scale=None, as_list=False, us=None):
    p = np.array(w, dtype=float) / sum(w)
    if scale is not None:
        p = p * scale
    arg = p.tolist() if as_list else p
    kw = {} if algo == 'default' else {'population_sampling_algo': algo}
    if us is not None:
        with Scripted(us):
            c = sample_population(n, arg, **kw)
    else:
        c = sample_population(n, arg, **kw)
    c = np.asarray(c)
    t.add('sample', w=[int(x) for x in w], n=n, algo='real_population' if algo == 'default' else algo,
          counts=[q(x) for x in c], ints=bool(np.issubdtype(c.dtype, np.integer) and c.ndim == 1),
          same=bool(np.array_equal(p, np.asarray(arg))) and len(arg) == len(w))


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    with rec.trace('design') as t:
        for i, b in enumerate(inp['beh']):
            sample(t, b['w'], b['n'], ['real_population', 'default'][i % 2], as_list=i % 5 == 0)
            sample(t, b['w'], b['n'], 'monte_carlo', as_list=i % 5 == 0,
                   us=[rnd.choice([0, U - 1, rnd.randrange(U)]) for _ in range(b['n'])])
    for i in range(inp['random']):
        with rec.trace('random/%d' % i) as t:
            for _ in range(20):
                k = rnd.choice([1, 2, 3, 5, 10, 40])
                tot = rnd.choice([10, 7, 49, 100, 997, 1000])
                sup = rnd.sample(range(k), rnd.randint(1, k))
                w = [0] * k
                for _ in range(tot):
                    w[rnd.choice(sup)] += 1
                n = rnd.choice([0, 1, 2, 3, rnd.randrange(30), rnd.randrange(300), 1000, 1001])
                sample(t, w, n, rnd.choice(['real_population', 'monte_carlo', 'default']),
                       scale=rnd.choice([None, None, 1 - 3e-7, 1 + 3e-7]), as_list=rnd.random() < .2)
            for bad in ([.5, .4], [.5, .6], [1.2, -.2], [float('nan'), 1.]):
                for algo in ('real_population', 'monte_carlo'):
                    try:
                        with redirect_stdout(io.StringIO()):
                            sample_population(5, np.array(bad), algo)
                        r = False
                    except ValueError:
                        r = True
                    t.add('refuse', refused=r)


if __name__ == "__main__":
    main(drive)
