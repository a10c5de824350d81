"""Runs of every simulator, observed following TLC's schedules, next to a run nobody observed (its states are read in
forked children only)."""
import datetime as dt
import inspect
import os
import pickle
import random
import zlib
import numpy as np
import zoo
from vf import main
from demod.simulators.base_simulators import SimLogger, Simulator


def digest(v):
    if isinstance(v, dict):
        s = 7
        for k in sorted(v, key=str):
            s = zlib.crc32(("%s:%d;" % (k, digest(v[k]))).encode(), s)
        return s >> 2
    if v is None or isinstance(v, (str, dt.datetime, dt.date, dt.timedelta)):
        return zlib.crc32(str(v).encode()) >> 2
    a = np.asarray(v)
    if a.dtype.kind in "biuf":
        a = np.asarray(a, float) + 0.0
        a = np.where(np.isnan(a), np.nan, a)
        return zlib.crc32(np.ascontiguousarray(a).tobytes() + str(a.shape).encode()) >> 2
    return zlib.crc32(str(a.tolist()).encode()) >> 2


def rng():
    s = np.random.get_state()
    return zlib.crc32(s[1].tobytes() + str(s[2:]).encode() + str(random.getstate()).encode()) >> 2


def names_of(sim, extra):
    """What can be read: getters without arguments, times, and getters with the given argument."""
    r = []
    for n in sorted(a for a in dir(sim) if a.startswith("get_")):
        try:
            ps = list(inspect.signature(getattr(sim, n)).parameters.values())
        except (ValueError, TypeError):
            continue
        if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            r.append((n, None, any(p.name == "n_ieth_hh" for p in ps)))
    r += [(n, None, False) for n in ("current_time", "current_time_step", "n_households") if hasattr(sim, n)]
    return r + [(n, a, False) for n, a in extra]


def state_of(sim):
    """Attributes that hold an array of numbers with one line per household: what a logger can record, too."""
    return [(n, None, False) for n in sorted(vars(sim)) if n[0] != "_" and isinstance(vars(sim)[n], np.ndarray)
            and vars(sim)[n].dtype.kind in "biuf" and vars(sim)[n].shape[:1] == (sim.n_households,)]


def key(g):
    return g[0] if g[1] is None else "%s(%s)" % g[:2]


def read(sim, g):
    f = getattr(sim, g[0])
    return f(g[1]) if g[1] is not None else f() if callable(f) else f


def forget(o, seen, depth=0):
    """Throws away what getters remember (if they do)."""
    if id(o) in seen or depth > 4:
        return
    seen.add(id(o))
    if isinstance(o, Simulator):
        c = getattr(o, "_cache", None)
        if isinstance(c, dict):
            c.clear()
        for v in list(vars(o).values()):
            forget(v, seen, depth + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            forget(v, seen, depth + 1)


def child(f):
    """The result of f, computed in a copy of this process."""
    r, w = os.pipe()
    state = random.getstate()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            random.setstate(state)       # a forked child starts with another seed
            try:
                out = (True, f())
            except Exception as e:
                out = (False, "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as o:
                pickle.dump(out, o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError("reading failed: " + v)
    return v


def fresh(sim, gs):
    """Every getter in its own turn, from nothing remembered."""
    forget(sim, set())
    val, ent, bad = {}, {}, []
    for g in gs:
        try:
            v = read(sim, g)
        except Exception:
            bad.append(g)
            continue
        val[key(g)] = digest(v)
        ent[key(g)] = []
        if g[2] and isinstance(v, (np.ndarray, list)) and len(v) == sim.n_households:
            ent[key(g)] = [digest(x) for x in v]
    return val, ent, bad


def reverse(sim, gs):
    """In the other order, by household first, remembering."""
    for g in reversed(gs):
        if g[2]:
            try:
                read(sim, g)
                getattr(sim, g[0])(sim.n_households - 1)
            except Exception:
                pass
    return {key(g): digest(read(sim, g)) for g in reversed(gs)}, rng()


def overhear(sim):
    """Remembers what the steps are given."""
    body = sim.step

    def step(*a, **kw):
        body(*a, **kw)
        sim.given_ = [a, kw]
    sim.step = step


def scribble(v):
    """The caller uses the arrays given to the step for something else."""
    if isinstance(v, Simulator):
        scribble(vars(v).pop("given_", None))
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
    elif isinstance(v, np.ndarray) and v.dtype.kind in "biuf" and v.flags.writeable:
        v[...] = v[::-1].copy() if v.dtype.kind == "b" else (v[::-1] + 1) % 3


def reference(name, seed, steps):
    sim, step, extra = zoo.build(name, seed)
    gs = names_of(sim, extra)
    val, ent, bad = child(lambda: fresh(sim, gs))
    gs = [g for g in gs if g not in bad]
    attrs = state_of(sim)
    gs += attrs
    ref, ents, rngs, again = [], [], [], []
    for k in range(steps + 1):
        if k:
            step(k)
        v, e, b = child(lambda: fresh(sim, gs))
        if b:
            raise RuntimeError("cannot be read after %d steps: %s" % (k, b))
        ref.append(v)
        ents.append(e)
        rngs.append(rng())
        again.append(child(lambda: reverse(sim, gs)))
    return gs[:len(gs) - len(attrs)], ref, ents, rngs, again, (steps, *tail(sim, step, steps, gs)), [g[0] for g in attrs]


TAIL = (12, 40, 110)


def tail(sim, step, steps, gs):
    """What a longer run without observation leads to, a few times."""
    vals, rngs = [], []
    for m in range(1, TAIL[-1] + 1):
        step(steps + m)
        if m in TAIL:
            vals.append(child(lambda: fresh(sim, gs))[0])
            rngs.append(rng())
    return vals, rngs


def swap(st):
    """Changes to another state of the random generators; returns the present one."""
    now = np.random.get_state(), random.getstate()
    if st:
        np.random.set_state(st[0])
        random.setstate(st[1])
    return now


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    scheds = inp["beh"]
    for name in inp["names"]:
        for _ in range(inp["seeds"]):
            s = rnd.randrange(1 << 30)
            gs = None
            runs = [[op for _ in range(inp["repeat"]) for op in rnd.choice(scheds) if op != "init"] for _ in range(inp["runs"])]
            with rec.trace("%s/%d/unobserved" % (name, s), sim=name, ref=[], ent=[], rng=[], tail=[], tailrng=[]) as t:
                gs, ref, ent, rngs, again, end, state = reference(name, s, max(r.count("step") for r in runs))
                t.cfg.update(ref=ref, ent=ent, rng=rngs, tail=end[1], tailrng=end[2])
                t.add("ready", rng=rngs[0])
                for k, (d, r) in enumerate(again):
                    if k:
                        t.add("step", rng=rngs[k])
                    t.add("all", d=d, after=r)
            if gs is None or t.ev[-1]["op"] == "raised":
                continue
            for i, ops in enumerate(runs):
                one(rec, rnd, "%s/%d/%d" % (name, s, i), name, s, gs, ref, ent, rngs, end, ops, rnd.random() < .6, state)


def one(rec, rnd, tname, name, seed, gs, ref, ent, rngs, end, ops, logged, state):
    with rec.trace(tname, sim=name, ref=ref, ent=ent, rng=rngs, tail=end[1], tailrng=end[2]) as t:
        attrs = [g[0] for g in gs if g[1] is None] + state
        rnd.shuffle(attrs)
        logger = SimLogger(list(attrs), aggregated=False) if logged else None
        other, saved = None, None
        if rnd.random() < .5:
            other = zoo.build(name, seed + 1)
            ogs = child(lambda: [g for g in names_of(other[0], other[2]) if g not in fresh(other[0], names_of(other[0], other[2]))[2]])
            saved = swap(None)
        sim, step, extra = zoo.build(name, seed, logger)
        if rnd.random() < .5:
            overhear(sim)
        kept, k, ok = [], 0, 0
        t.add("ready", rng=rng())

        def logs():
            for a in attrs:
                v = sim.logger.get(a)
                n = len(v[next(iter(v))]) if isinstance(v, dict) and v else len(v)
                t.add("log", g=a, d=[digest({x: v[x][i] for x in v} if isinstance(v, dict) else v[i].item() if a == "current_time" and hasattr(v[i], "item") else v[i])
                                     for i in range(n)])

        def get(g):
            v = read(sim, g)
            kept.append((key(g), k, v))
            t.add("get", g=key(g), d=digest(v))
        two = [rnd.choice(gs), rnd.choice(gs)]
        for op in ops:
            if op == "step":
                if other and rnd.random() < .5:
                    mine = swap(saved)
                    ok += 1
                    other[1](ok)
                    for g in ogs:
                        read(other[0], g)
                    saved = swap(mine)
                k += 1
                step(k)
                scribble(sim)
                t.add("step", rng=rng())
            elif op == "log":
                if logged:
                    logs()
                else:
                    for g in rnd.sample(gs, len(gs)):
                        get(g)
            elif op == "clear":
                if logged:
                    sim.logger.clear()
                    t.add("clear")
            else:
                g = two[int(op[1:]) - 1] if rnd.random() < .5 else rnd.choice(gs)
                e = ent[k][key(g)]
                if e and rnd.random() < .5:
                    j = rnd.randrange(len(e))
                    t.add("index", g=key(g), i=j, d=digest(getattr(sim, g[0])(j)))
                get(g)
        for g in gs:
            get(g)
        if logged:
            logs()
        for g, kk, v in kept:
            t.add("kept", g=g, k=kk, d=digest(v))
        for m in range(k + 1, end[0] + TAIL[-1] + 1):
            step(m)
            scribble(sim)
            if m - end[0] in TAIL:
                t.add("tail", i=TAIL.index(m - end[0]) + 1, d={key(g): digest(read(sim, g)) for g in gs}, rng=rng())


if __name__ == "__main__":
    main(drive)
