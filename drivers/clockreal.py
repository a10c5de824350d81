"""Driver of C01: the clock of the real time-aware simulators, initialised on made-up data."""
import datetime as dt
import random
import numpy as np
import zoo
from clock import sec, dur, tod
from vf import main
from demod.simulators.base_simulators import TimeAwareSimulator

# the classes built by the zoo, and the time of day (None: the refresh time of the data) they are initialised at
CLASSES = {
    "individuals": ("SubgroupsIndividualsActivitySimulator", None), "individuals_semi": ("SubgroupsIndividualsActivitySimulator", None),
    "crest_four": ("Crest4StatesModel", None), "appl_occ": ("OccupancyApplianceSimulator", None),
    "crest_climate": ("CrestClimateSimulator", dt.time(0)), "crest_irradiance": ("CrestIrradianceSimulator", dt.time(0)),
    "example_timed": ("TimeAwareExampleSimulator", dt.time(4)),
    "appl_act": ("ActivityApplianceSimulator", "given"), "appl_prob": ("ProbabiliticActivityAppliancesSimulator", "given")}


class Watch:
    """Steps of every time-aware simulator, by object; the start of one class replaced."""

    def __init__(self, start, classes):
        self.start, self.classes, self.steps = start, classes, {}

    def __enter__(self):
        self.step = step = TimeAwareSimulator.step
        self.inits = {c: c.__init__ for c in self.classes}
        me = self

        def watched(sim, *a, **k):
            before = sec(sim.current_time)
            r = step(sim, *a, **k)
            # the counter is read once the whole step is over: it goes up by one with every call
            me.steps.setdefault(id(sim), []).append((before, sec(sim.current_time), sim.current_time_step))
            return r
        TimeAwareSimulator.step = watched
        for c, init in self.inits.items():
            def initialise(sim, *a, _init=init, **k):
                if "start_datetime" in k:
                    k["start_datetime"] = me.start
                me.sim = sim
                return _init(sim, *a, **k)
            c.__init__ = initialise
        return self

    def __exit__(self, *e):
        TimeAwareSimulator.step = self.step
        for c, init in self.inits.items():
            c.__init__ = init


def random_start(rnd):
    return dt.datetime(rnd.choice([2012, 2014, 2015]), rnd.randint(1, 12), rnd.choice([1, 1, 2, 15, 28]), rnd.choice([0, 3, 3, 4, 4, 5, 23]),
                       rnd.choice([0, 0, 59, 10, rnd.randint(0, 59)]), rnd.choice([0, 0, 0, 1, 59]))


def classes_of(name):
    c, _ = CLASSES[name]
    import demod.simulators.appliance_simulators as A
    return [getattr(zoo, c, None) or getattr(A, c)]


def run(rec, inp, tier, seed):
    for name in inp["names"]:
        for i in range(inp["n"]):
            rnd = random.Random("%s %d %d" % (name, i, seed))
            start = random_start(rnd)
            at = CLASSES[name][1]
            with Watch(start, classes_of(name)) as w:
                sim, step, _ = zoo.build(name, rnd.randrange(1 << 30))
                assert w.sim is sim
                kind, ev = "time", w.steps
                if at is None:
                    at = sim.data.refresh_time if hasattr(sim, "data") else dt.time(4)
                elif at == "given":
                    # initialised at the start, then asked to start again from an earlier moment
                    kind = rnd.choice(["none", "time", "time", "dt", "dt"])
                    at = {"none": None, "time": dt.time(rnd.choice([start.hour, (start.hour - 1) % 24, 4]), rnd.choice([0, 30])),
                          "dt": start + dt.timedelta(minutes=rnd.choice([0, -1, -17, 1]), seconds=rnd.choice([0, 0, 5]))}[kind]
                arg = [0, 0] if kind == "none" else tod(at) if kind == "time" else sec(at)
                with rec.trace(name, start=sec(start), step=dur(sim.step_size), kind=kind, arg=arg, refresh=[0, 0], cb="after_refresh_time") as t:
                    refused = False
                    if CLASSES[name][1] == "given" and kind != "none":
                        first = ev.pop(id(sim), [])
                        assert not first and sim.current_time == start
                        try:
                            sim.initialize_starting_state({a: np.array(x) for a, x in sim.previous_act_dict.items()}, initialization_time=at)
                        except ValueError:
                            refused = True
                    t.add("begin", refused=refused)
                    if refused:
                        continue
                    seen = ev.pop(id(sim), [])
                    for a, b, n in seen:
                        t.add("step", a=a, b=b, n=n, shows=[])
                    t.add("ready", now=sec(sim.current_time), n=sim.current_time_step, tzok=sim.current_time.tzinfo == start.tzinfo)
                    for k in range(3):
                        step(k)
                        for a, b, n in ev.pop(id(sim), [("never", "stepped", 0)]):
                            t.add("step", a=a, b=b, n=n, shows=[])


if __name__ == "__main__":
    main(run)
