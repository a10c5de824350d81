import datetime as dtm
import random
from vf import Recorder, main, Shape
from demod.simulators import base_simulators as bs

EPOCH = dtm.datetime(2000, 1, 1)


def sec(dt):
    dt = dt.replace(tzinfo=None)
    d = dt - EPOCH
    return [d.days * 86400 + d.seconds, d.microseconds]


def dur(td):
    return [td.days * 86400 + td.seconds, td.microseconds]


def tod(t):
    return [t.hour * 3600 + t.minute * 60 + t.second, t.microsecond]


DECOS = {}
for c in ("before_next_day", "after_next_day", "before_next_day_4am", "after_next_day_4am",
          "before_refresh_time", "after_refresh_time"):
    DECOS[c] = [getattr(bs.Callbacks, c)]
DECOS["before_next_day"].append(bs.before_next_day_callback)
DECOS["after_next_day"].append(bs.after_next_day_callback)
DECOS["before_next_day_4am"].append(bs.before_next_day_callback_4am)
DECOS["after_next_day_4am"].append(bs.after_next_day_callback_4am)


class Data:
    def __init__(self, t):
        self.refresh_time = t


def make(cb, deco, refresh, sink):
    def body(self, *a, **k):
        bs.TimeAwareSimulator.step(self)
        self._shows.append(["body", sec(self.current_time)])
    decorated = deco(body)

    class S(bs.TimeAwareSimulator):
        data = Data(refresh)

        def step(self, *a, **k):
            self._shows = []
            a0 = sec(self.current_time)
            decorated(self, *a, **k)
            sink.add("step", a=a0, b=sec(self.current_time), n=self.current_time_step, shows=self._shows)

    def called(self):
        self._shows.append(["call", sec(self.current_time)])
    setattr(S, "on_" + cb, called)
    return S


def run(rec, name, start, step, kind, arg, cb, deco, refresh, nsteps, passkw=False):
    a = {"none": [0, 0]}.get(kind) or (tod(arg) if kind == "time" else sec(arg))
    with rec.trace(name, start=sec(start), step=dur(step), kind=kind, arg=a, refresh=tod(refresh), cb=cb) as t:
        sink = rec.trace("tmp")
        S = make(cb, deco, refresh, sink)
        sim = S(2, start_datetime=start, step_size=step)
        kw = {}
        if kind != "none":
            kw["initialization_time"] = arg
        try:
            sim.initialize_starting_state(**kw)
            refused = False
        except ValueError:
            refused = True
        t.add("begin", refused=refused)
        t.ev.extend(sink.ev)
        if refused:
            return
        t.add("ready", now=sec(sim.current_time), n=sim.current_time_step,
              tzok=(sim.current_time.tzinfo == start.tzinfo))
        del sink.ev[:]
        for _ in range(nsteps):
            sim.step()
        t.ev.extend(sink.ev)


def drive(rec, inp, tier, seed):
    rnd = random.Random(seed)
    allcb = sorted(DECOS)
    # 1. every configuration of the design, at a real month end (day 2 of the design = 1 March / 1 January / 31 May)
    for i, c in enumerate(inp["beh"]):
        base = [dtm.datetime(2016, 2, 28), dtm.datetime(2013, 12, 30), dtm.datetime(2014, 5, 29)][i % 3]
        h = lambda x: dtm.timedelta(hours=x[0])
        cb = allcb[i % len(allcb)]
        step = h(c["step"])
        if step > dtm.timedelta(hours=1) and "refresh" not in cb:
            cb = "before_refresh_time"
        kind = c["kind"]
        arg = None
        if kind == "time":
            arg = dtm.time(c["arg"][0])
        elif kind == "dt":
            arg = base + h(c["arg"])
        deco = DECOS[cb][(i // 6) % len(DECOS[cb])]
        run(rec, "design/%s/%d" % (cb, i), base + h(c["start"]), step, kind, arg, cb, deco,
            dtm.time(c["refresh"][0]), 3)
    if not inp.get("random"):
        return
    # 2. every calendar boundary of several years, every callback, several step sizes
    steps = [dtm.timedelta(minutes=m) for m in (1, 7, 10, 15, 30, 60)] + [
        dtm.timedelta(seconds=40), dtm.timedelta(minutes=13, seconds=20), dtm.timedelta(seconds=59, microseconds=999999)]
    months = [(y, m) for y in (2011, 2012, 2000, 2023, 2024) for m in range(1, 13)]
    for cb in allcb:
        for k, deco in enumerate(DECOS[cb]):
            for (y, m) in months:
                first = dtm.datetime(y, m, 1)
                step = rnd.choice(steps)
                refresh = rnd.choice([dtm.time(4), dtm.time(0), dtm.time(12, 30), dtm.time(23, 59)])
                tgt = {"before_next_day": dtm.time(0), "after_next_day": dtm.time(0),
                       "before_next_day_4am": dtm.time(4), "after_next_day_4am": dtm.time(4)}.get(cb, refresh)
                before = rnd.randint(0, 6)
                off = dtm.timedelta(0) if rnd.random() < .4 else step * rnd.random()
                off = dtm.timedelta(seconds=int(off.total_seconds()))
                d = dtm.datetime.combine(first - dtm.timedelta(days=rnd.choice([0, 0, 0, 1, 15])), tgt)
                start = d - before * step - off
                run(rec, "calendar/%s/%d/%s" % (cb, k, start.isoformat()), start, step, "none", None, cb, deco,
                    refresh, before + 4)
    # 3. random initialisations, all units, time zones
    import zoneinfo
    tzs = [None, None, dtm.timezone.utc, dtm.timezone(dtm.timedelta(hours=5, minutes=30)), dtm.timezone(dtm.timedelta(hours=-7))]
    n = inp["random"]
    for i in range(n):
        tz = rnd.choice(tzs)
        y = rnd.choice([2008, 2012, 2014, 2015, 2020, 2021])
        start = dtm.datetime(y, rnd.randint(1, 12), rnd.choice([1, 1, 28, 15]), tzinfo=tz) + dtm.timedelta(
            hours=rnd.choice([0, 0, 3, 4, 5, 23]), minutes=rnd.choice([0, 0, 1, 17, 30, 59]),
            seconds=rnd.choice([0, 0, 0, 1, 59]), microseconds=rnd.choice([0, 0, 0, 1, 999999]))
        start -= dtm.timedelta(days=rnd.choice([0, 0, 1]))
        step = rnd.choice([dtm.timedelta(minutes=rnd.choice([10, 15, 17, 30, 45, 60, 61, 90, 180, 1440, 4000])),
                           dtm.timedelta(seconds=rnd.choice([599, 600, 1111, 3601])),
                           dtm.timedelta(minutes=20, microseconds=rnd.choice([1, 333333]))])
        kind = rnd.choice(["time", "time", "time", "dt", "dt", "none"])
        arg = None
        if kind == "time":
            arg = rnd.choice([dtm.time(0), dtm.time(4), start.time(), dtm.time(23, 59, 59), dtm.time(12, 1),
                              (start - dtm.timedelta(seconds=1)).time(), (start + dtm.timedelta(seconds=1)).time(),
                              (start + dtm.timedelta(microseconds=1)).time(),
                              dtm.time(rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), rnd.choice([0, 5]))])
        elif kind == "dt":
            arg = start + rnd.choice([dtm.timedelta(0), -step, -3 * step, step, dtm.timedelta(microseconds=1),
                                      -dtm.timedelta(microseconds=1), -step * 2 + dtm.timedelta(seconds=1),
                                      -dtm.timedelta(minutes=rnd.randint(0, 2000))])
        if step <= dtm.timedelta(hours=1):
            cb = rnd.choice(allcb)
        else:
            cb = rnd.choice(["before_refresh_time", "after_refresh_time"])
        deco = rnd.choice(DECOS[cb])
        run(rec, "random/%s/%d" % (kind, i), start, step, kind, arg, cb, deco,
            rnd.choice([dtm.time(4), dtm.time(0), start.time()]), rnd.randint(0, 5))
    # 4. fractions of a second and other odd sizes, a whole number of steps before the start or just off it
    for i in range(n // 5):
        step = rnd.choice([dtm.timedelta(milliseconds=rnd.choice([1, 10, 50, 70, 100, 300, 700, 1100, 60100, 600300])),
                           dtm.timedelta(microseconds=rnd.choice([1, 3, 7, 333333, 999999, 1000001])),
                           dtm.timedelta(seconds=rnd.choice([1, 7, 10, 60, 600]), milliseconds=rnd.choice([0, 100, 900]))])
        start = dtm.datetime(2014, rnd.randint(1, 12), 1, tzinfo=rnd.choice(tzs)) + dtm.timedelta(
            hours=rnd.choice([0, 0, 4, 12]), milliseconds=rnd.choice([0, 0, 100, 300]))
        arg = start - rnd.choice([rnd.randint(0, 20), rnd.randint(0, 400)]) * step + rnd.choice([0, 0, 0, -1, 1]) * dtm.timedelta(microseconds=1)
        kind = "time" if start - arg < dtm.timedelta(days=1) and start >= arg and rnd.random() < .3 else "dt"
        cb = rnd.choice(["before_refresh_time", "after_refresh_time"])
        run(rec, "fraction/%s/%d" % (kind, i), start, step, kind, arg.time() if kind == "time" else arg, cb, DECOS[cb][0],
            dtm.time(4), rnd.randint(0, 5))


if __name__ == "__main__":
    main(drive)
