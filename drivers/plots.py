"""Driver of C32: pictures of recorded profiles, of activities, appliances and states, read back from the figures.

Nothing is displayed: showing a figure notes what it holds and closes it."""
import datetime
import random
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import numpy as np

from vf import main, q

warnings.simplefilter("ignore")
START = datetime.datetime(2014, 3, 1, 4)
STEP = datetime.timedelta(minutes=10)
FIGURES = []


def show(*a, **k):
    for n in plt.get_fignums():
        FIGURES.append(plt.figure(n))
        FIGURES[-1].canvas.draw()
    plt.close("all")                # as when the window is closed


def shown():
    out = list(FIGURES)
    FIGURES.clear()
    return out


plt.show = show


class Recorded:
    """Something a logger can visit."""

    def __init__(self):
        self.current_time = START

    def put(self, row):
        self.row = row

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        kind, as_int = name.split("_")[0], name.endswith("i")
        v = np.array(self.row, int if as_int else float)
        if kind == "rows":
            return lambda: v
        if kind == "one":
            return v[0]
        if kind == "dict":
            return lambda: {"p": v, "q": 2 * v + 1}
        if kind == "onedict":
            return {"p": v[0], "q": 2 * v[0] + 1}
        raise AttributeError(name)


def label(text, attrs):
    """<<attribute, part, household>> of a label."""
    for a in sorted([a[0] for a in attrs], key=len, reverse=True):
        if text == a or text.startswith((a + "_", a + "[")):
            r = text[len(a):]
            hh = 0
            if "_hh_" in r:
                r, h = r.split("_hh_")
                hh = int(h) + 1
            return [a, r.strip("_[]'"), hh]
    return [text, "", 0]


def picture(figs, attrs, column):
    panels = []
    for f in figs:
        axes = f.axes if column else f.axes[:1]
        for ax in axes:
            lines = []
            for ln in ax.lines:
                xs = np.asarray(ln.get_xdata(orig=True))
                if xs.dtype.kind in "OM":
                    xs = [(x - START) / STEP for x in xs.astype("datetime64[us]").astype(datetime.datetime)]
                lines.append(label(ln.get_label(), attrs) + [[q(float(x)) for x in xs], [q(float(y)) for y in ln.get_ydata(orig=True)],
                                                             "steps" if ln.get_drawstyle() == "steps-post" else
                                                             "joined" if ln.get_drawstyle() == "default" else ln.get_drawstyle()])
            lg = ax.get_legend()
            panels.append({"lines": lines, "legend": [label(t.get_text(), attrs) for t in lg.get_texts()] if lg else []})
    plt.close("all")
    return panels


def logger(t, hist, attrs, rng, split):
    from demod.simulators.base_simulators import SimLogger
    names, aggs = [a[0] for a in attrs], [a[2] for a in attrs]
    k = rng.randint(1, len(names) - 1) if split else len(names)
    if not split and len(set(aggs)) == 1 and not any(a[1] == "time" for a in attrs):
        logs = [SimLogger(*names, aggregated=aggs[0])] if rng.random() < .5 else [SimLogger(names, aggregated=aggs[0])]
    else:
        logs = [SimLogger(names[:k], aggregated=aggs[:k])] + ([SimLogger(names[k:], aggregated=aggs[k:])] if split else [])
    sim = Recorded()

    def look():
        lg = logs[0]
        for merge in (False, True):
            lg.plot(aggregate=merge) if merge or rng.random() < .5 else lg.plot()
            t.add("figure", merge=merge, style="joined", panels=picture(shown(), attrs, False))
            lg.plot_column(aggregate=merge) if merge or rng.random() < .5 else lg.plot_column()
            t.add("figure", merge=merge, style="steps", panels=picture(shown(), attrs, True))
    for n, row in enumerate(hist):
        if row:
            sim.put(row)
            for lg in logs:
                lg.visit_simulator(sim)
            sim.current_time = sim.current_time + STEP
            t.add("visit", row=row)
        else:
            for lg in logs:
                lg.clear()
            sim.current_time = START
            t.add("clear")
        if not split and n < len(hist) - 1 and rng.random() < .1:
            look()
    if split:
        logs[0] += logs[1]
    look()


def attributes(rng):
    kinds = ["rows", "rows_i", "one", "dict", "dict_i", "onedict"]
    out = [[n, n.split("_")[0], rng.random() < .4] for n in rng.sample(kinds, rng.randint(1, 4))]
    if rng.random() < .5:
        out.insert(rng.randint(0, len(out)), ["current_time", "time", False])
    return out


# ------------------------------------------------------------------ the plotters
def axis(rng, n):
    """Moments of a picture, and the code's axis (None: positions)."""
    r = rng.random()
    if r < .4:
        return list(range(n)), None
    xs = sorted(rng.sample(range(3 * n + 5), n))
    if r < .7:
        return xs, np.array(xs)
    return xs, np.array([START + x * STEP for x in xs])


def unit(code_axis):
    if code_axis is None or code_axis.dtype != object:
        return lambda x: q(float(x))
    import matplotlib.dates as md
    return lambda x: q(round((float(x) - md.date2num(START)) * 144, 4))


def bands(ax, xs, u):
    """Twice the bounds of every stacked area in the middle of every interval, and its extent."""
    out = []
    for c in ax.collections:
        ps = c.get_paths()
        v = np.concatenate([p.vertices for p in ps])
        px = np.array([u(x) for x in v[:, 0]], float)
        lo, hi = [], []
        for a, b in zip(xs[:-1], xs[1:]):
            m = (a + b) / 2
            ys = [v[j, 1] + (v[j + 1, 1] - v[j, 1]) * (m - px[j]) / (px[j + 1] - px[j])
                  for j in range(len(v) - 1) if (px[j] - m) * (px[j + 1] - m) < 0]
            lo.append(q(round(2 * min(ys), 6)) if ys else -1)
            hi.append(q(round(2 * max(ys), 6)) if ys else -1)
        out.append([c.get_label(), lo, hi, [q(px.min()), q(px.max())]])
    lg = ax.get_legend()
    return out, [t.get_text() for t in lg.get_texts()] if lg else []


def draw(f, rng, returns=False):
    """Calls with or without a place; the axes drawn on, whether it was given, figures shown, whether it returned something."""
    given = rng.random() < .4
    if given:
        fig, ax = plt.subplots()
        r = f(ax=ax)
        fig.canvas.draw()
    else:
        r = f()
    figs = shown()
    axes = ax if given else figs[0].axes[0] if not returns else r[1]
    return axes, {"given": given, "shown": len(figs), "returned": r is not None}


def activities(t, P, rng):
    n, rich = rng.randint(2, 12), rng.random() < .5
    names = rng.sample(["away", "sleeping", "active_occupancy", "cook", "tv", "wash", "iron"], rng.randint(1, 6))
    rows = [[a, [0 if rng.random() < .4 else rng.randint(0, 5 if rich else 3) for _ in range(n)]] for a in names]
    if rng.random() < .2:
        rows[-1][1] = [0] * n
    xs, ca = axis(rng, n)
    u = unit(ca)
    kw, cols = {}, ["#d7191c", "#fdae61", "#ffffbf", "#abdda4", "#2b83ba"]
    r = rng.random()
    if r < .3:
        cols = ["red", "green", "blue", "black", "orange", "gray"]
        kw["colors"] = np.array(cols)
    elif r < .5:
        cols = kw["colors"] = None
    top = rng.random() < .7
    if not top or rng.random() < .5:
        kw["main_states_on_top"] = top
    if ca is not None:
        kw["time_axis"] = ca
    if rng.random() < .3:
        kw["marker"] = "s"
    ax, how = draw(lambda **k: P.plot_household_activities({a: np.array(v) for a, v in rows}, **kw, **k), rng)
    pts = []
    for c in ax.collections:
        off = np.asarray(c.get_offsets(), float)
        arr = c.get_array()
        for i, (x, y) in enumerate(off):
            if cols is None:
                v = int(arr[i])
            else:
                fc = c.get_facecolors()
                fc = tuple(fc[i if len(fc) > 1 else 0])
                v = [to_rgba(z) for z in cols].index(fc) + 1
            pts.append([q(y), u(x), v])
    lg = ax.get_legend()
    t.add("activities", rows=rows, top=top, axis=xs, names=[x.get_text() for x in ax.get_yticklabels()], points=pts, colours=cols is not None,
          legend=[int(x.get_text()) for x in lg.get_texts()] if lg else [], **how)
    plt.close("all")


def appliances(t, P, rng):
    n, m = rng.randint(2, 10), rng.randint(1, 7)
    of = [rng.choice(["fridge", "tv", "oven", "kettle"]) for _ in range(m)]
    use = [[rng.choice([0, 0, rng.randint(1, 3000)]) for _ in range(m)] for _ in range(n)]
    xs, ca = axis(rng, n)
    kw = {} if ca is None else {"time_axis": ca}
    names = sorted(set(of))
    if rng.random() < .5:
        names = rng.sample(names, rng.randint(1, len(names)))
        kw["labels_list"] = names
    d = {"type": np.array(of), "name": np.array(["n%d" % k for k in range(m)]), "number": m}
    if rng.random() < .3:
        d = {"type": np.array(["x"] * m), "related_activity": np.array(of)}
        kw["differentiative_factor"] = "related_activity"
    ax, how = draw(lambda **k: P.plot_appliance_consumptions(np.array(use), d, **kw, **k), rng)
    b, lg = bands(ax, xs, unit(ca))
    t.add("appliances", names=names, of=of, use=use, axis=xs, step="post", bands=b, legend=lg, **how)
    plt.close("all")


def states(t, P, rng):
    n, m, s = rng.randint(2, 10), rng.randint(1, 6), rng.randint(1, 5)
    x = [[rng.randrange(s) for _ in range(n)] for _ in range(m)]
    labels = ["s%d" % k for k in range(s)]
    ax, how = draw(lambda **k: P.plot_stack_states(np.array(x), labels, **k), rng, returns=True)
    b, lg = bands(ax, list(range(n)), lambda z: q(float(z)))
    t.add("states", names=labels, states=x, axis=list(range(n)), step="none", bands=b, legend=lg, **how)
    plt.close("all")


def stacked(t, P, rng):
    n = rng.randint(2, 10)
    names = rng.sample(["away", "sleeping", "cook", "tv", "wash"], rng.randint(1, 5))
    use = [[rng.randint(0, 6) for _ in range(n)] for _ in names]
    xs, ca = axis(rng, n)
    kw = {} if ca is None else {"time_axis": ca}
    step = rng.choice(["post", "post", "pre"])
    if step != "post" or rng.random() < .5:
        kw["step"] = step
    ax, how = draw(lambda **k: P.plot_stacked_activities(dict(zip(names, map(np.array, use))), **kw, **k), rng)
    b, lg = bands(ax, xs, unit(ca))
    t.add("stacked", names=names, use=use, axis=xs, step=step, bands=b, legend=lg, **how)
    plt.close("all")


def drive(rec, inp, tier, seed):
    rng = random.Random(seed)
    import demod.utils.plotters as P
    for k, hist in enumerate(inp.get("beh", [])):
        attrs = attributes(rng)
        with rec.trace("replay%d" % k, attrs=attrs) as t:
            logger(t, hist, attrs, rng, len(attrs) > 1 and rng.random() < .2)
        plt.close("all")
        FIGURES.clear()
    for k in range(inp.get("loggers", 0)):
        attrs, h = attributes(rng), rng.randint(1, 4)
        hist = [[rng.choice([0, 1, 7, rng.randint(0, 5000)]) for _ in range(h)] if rng.random() < .93 else [] for _ in range(rng.randint(0, 14))]
        with rec.trace("logger%d" % k, attrs=attrs) as t:
            logger(t, hist, attrs, rng, len(attrs) > 1 and rng.random() < .2)
        plt.close("all")
        FIGURES.clear()
    for k in range(inp.get("pictures", 0)):
        for f in (activities, appliances, states, stacked):
            with rec.trace("%s%d" % (f.__name__, k), attrs=[]) as t:
                f(t, P, rng)
            plt.close("all")
            FIGURES.clear()


main(drive)
