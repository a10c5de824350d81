"""Every simulator of the package on made-up data (or the packaged German data), built and stepped the same way for the
same seed: build(seed, logger) -> (simulator, step function of the step number, extra observations)."""
import datetime as dt
import random
import warnings
import numpy as np
import appliances
import chainlib
import climate
import heating
import lighting
import loadsim
import occupancy
from demod.datasets.CREST.loader import Crest
from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SemiMarkovSimulator, SubgroupsIndividualsActivitySimulator)
from demod.simulators.base_simulators import ExampleSimulator, TimeAwareExampleSimulator
from demod.simulators.crest_simulators import Crest4StatesModel, CrestOccupancySimulator
from demod.simulators.heating_simulators import (
    BuildingThermalDynamics, FiveModulesHeatingSimulator, HeatDemand, HeatingSystem, SystemControls, Thermostats,
    VariableThermostatTemperatureSimulator)
from demod.simulators.lighting_simulators import CrestLightingSimulator, FisherLightingSimulator
from demod.simulators.load_simulators import LoadSimulator
from demod.simulators.sparse_simulators import (
    SparseStatesSimulator, SparseTransitStatesSimulator, SubgroupsActivitySimulator)
from demod.simulators.weather_simulators import (
    CrestClimateSimulator, CrestIrradianceSimulator, RealClimate, RealInterpolatedClimate)
from demod.utils.sparse import SparseTPM
from demod.utils.subgroup_handling import Subgroup

warnings.simplefilter("ignore")
np.seterr(all="ignore")
N = 144


def start_of(rnd):
    return dt.datetime(2014, 3, rnd.randint(1, 9), rnd.choice([4, 4, 3, 5, 23]), rnd.choice([0, 0, 50, 10]))


def matrices(rnd, s):
    m = np.zeros((N, s, s))
    for p in range(N):
        for i in range(s):
            m[p, i, rnd.sample(range(s), min(s, 2))] = 1
    return m / m.sum(2, keepdims=True)


def no_input(sim):
    return lambda k: sim.step()


def markov(rnd, kw):
    s = rnd.randint(2, 4)
    labels = np.array(["s%d" % i for i in range(s)])
    sim = MarkovChain1rstOrder(rnd.randint(1, 5), s, matrices(rnd, s), labels=labels, **kw)
    sim.initialize_starting_state(np.full(s, 1. / s), rnd.choice([0, 3]))
    return sim, no_input(sim), [("get_n_doing_state", x) for x in range(s)]


def semi(rnd, kw):
    s = rnd.randint(2, 4)
    labels = np.array(["s%d" % i for i in range(s)])
    d = np.zeros((N, s, 6))
    d[:, :, 1:4] = 1. / 3
    sim = SemiMarkovSimulator(rnd.randint(1, 5), s, matrices(rnd, s), d, labels=labels, **kw)
    sim.initialize_starting_state(np.full(s, 1. / s), d[0])
    return sim, no_input(sim), [("get_n_doing_activity", x) for x in labels]


def individuals(sub):
    def build(rnd, kw):
        acts = ["away", "sleeping", "tv"]
        data = occupancy.Persons(acts, lambda ty: matrices(random.Random(ty), 3), lambda ty: np.full(3, 1. / 3), rnd)
        ks = rnd.sample(list(occupancy.KINDS), 2)
        sim = SubgroupsIndividualsActivitySimulator(
            [Subgroup(occupancy.kind(k)) for k in ks], [rnd.randint(1, 3) for _ in ks], subsimulator=sub, data=data,
            start_datetime=start_of(rnd), use_week_ends_days=rnd.random() < .5, **kw)
        return sim, no_input(sim), [("get_n_doing_activity", a) for a in acts] + [("get_performing_activity", "tv")]
    return build


def sparse_states(rnd, kw):
    s = rnd.randint(2, 4)
    m = matrices(rnd, s)
    i = np.nonzero(m)
    sim = SparseStatesSimulator(rnd.randint(1, 5), SparseTPM(*i, m[i], n_states=s, n_times=N), np.full(s, 1. / s),
                                labels=np.array(["s%d" % j for j in range(s)]), **kw)
    return sim, no_input(sim), []


def transit(rnd, kw):
    data = occupancy.Transit(rnd, ["HWH", "active", "HOH"])
    sim = SparseTransitStatesSimulator(rnd.randint(1, 5), {"n_residents": rnd.choice([1, 2, 3])}, data=data, start_datetime=start_of(rnd), **kw)
    return sim, no_input(sim), [("get_n_doing_activity", "active"), ("get_n_doing_state", "HWH")]


def transit_multi(rnd, kw):
    data = occupancy.Transit(rnd, ["HWH", "active", "HOH"])
    sim = SubgroupsActivitySimulator([{"n_residents": r} for r in (1, 2, 3)], [rnd.randint(1, 3), 0, rnd.randint(1, 3)], data=data,
                                     start_datetime=start_of(rnd), **kw)
    return sim, no_input(sim), [("get_n_doing_activity", "active")]


def crest_one(rnd, kw):
    sim = CrestOccupancySimulator(rnd.randint(1, 5), 2, "d", data=occupancy.CrestData(rnd, [2], [1.]), **kw)
    return sim, no_input(sim), []


def crest_four(rnd, kw):
    sim = Crest4StatesModel(rnd.randint(2, 6), data=occupancy.CrestData(rnd, [1, 3], [.5, .5]), start_datetime=start_of(rnd), **kw)
    return sim, no_input(sim), []


def appliance(kind):
    def build(rnd, kw):
        acts, apps = appliances.make_apps(rnd, kind, rnd.randint(2, 6))
        subs, counts = [{"sg": 0}, {"sg": 1}], [rnd.randint(1, 2), rnd.randint(1, 2)]
        nh = sum(counts)
        prof = appliances.make_profiles(rnd, apps, .5)
        algo = "uniform" if prof["switchedON"] and prof["full"] else "nothing"
        data = appliances.Data(apps, 240, prof, [{a["type"]: .75 for a in apps} for _ in subs],
                               {a["type"]: appliances.TARGET[a["p"]] for a in apps})
        start = dt.datetime(2014, 3, rnd.randint(1, 9), 4, rnd.choice([0, 1, 30]))
        common = dict(start_datetime=start, equipped_sampling_algo="subgroup", real_profiles_algo=algo, data=data, **kw)
        seed = rnd.randrange(1 << 30)

        def inputs(k):
            r = random.Random(seed + k)
            if kind == "occ":
                return np.array([r.choice([0, 1, 1, 2]) for _ in range(nh)])
            return {a: np.array([r.choice([0, 0, 1, 2]) for _ in range(nh)]) for a in acts + ["rest"]}
        if kind == "occ":
            sim = appliances.KINDS[kind]([dict(s) for s in subs], list(counts), initial_active_occupancy=inputs(0), **common)
        else:
            sim = appliances.KINDS[kind](nh, inputs(0), subgroups_list=subs, n_households_list=counts, **common)
        return sim, lambda k: sim.step(inputs(k)), []
    return build


def fisher(rnd, kw):
    data = lighting.Data(fisher={"irradiation_threshold_min": 10, "irradiation_threshold_max": 60, "individual_light_use": 40})
    nh, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    sim = FisherLightingSimulator(nh, data=data, **kw)
    return sim, lambda k: sim.step(np.array([random.Random(seed + 9 * k + h).randint(0, 3) for h in range(nh)]), (seed + 17 * k) % 90), []


def bulbs(rnd, kw):
    data = lighting.Data(cal=1 / 16, eff=[0, 8, 12, 16, 20, 24, 24], cdf=[40, 90, 128], low=[1, 3, 6], high=[2, 5, 9], mean=60, std=10,
                         configs=[[10, 20, 40], [5, 7, float("nan")]], ratings=[5, 20, 60], pen=[3, 5, 8], nmean=8, nstd=2)
    nh, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    sim = CrestLightingSimulator(nh, data=data, bulbs_sampling_algo=rnd.choice(["config", "randn"]), **kw)
    return sim, lambda k: sim.step(np.array([random.Random(seed + 9 * k + h).choice([0, 1, 2, 3]) for h in range(nh)]), (seed + 17 * k) % 90), []


class Records:
    """Made-up weather, for any start."""
    geographic_data = None
    step_size = dt.timedelta(minutes=30)

    def __init__(self, key):
        self.key = key

    def load_historical_climate_data(self, start):
        t0 = np.datetime64(start.replace(minute=0, second=0, microsecond=0)) - np.timedelta64(1, "h")
        n = 400
        return {"datetime": t0 + np.arange(n) * np.timedelta64(30, "m"), "outside_temperature": 5 + np.sin(np.arange(n) * 1.3) * 8,
                self.key: np.abs(np.cos(np.arange(n))) * 300}


def weather(cls):
    def build(rnd, kw):
        if cls is RealInterpolatedClimate:
            kw = dict(kw, step_size=dt.timedelta(minutes=rnd.choice([1, 10, 45])))
        sim = cls(data=Records("irradiance"), start_datetime=start_of(rnd), **kw)
        return sim, no_input(sim), []
    return build


def crest_weather(cls):
    def build(rnd, kw):
        sim = cls(data=Crest(), start_datetime=dt.datetime(2014, rnd.randint(1, 12), rnd.randint(1, 28), rnd.choice([0, 12, 23]), rnd.choice([0, 30, 58])), **kw)
        return sim, no_input(sim), []
    return build


def house(rnd, dts=60):
    return heating.Data(rnd, dts)


def heat_inputs(seed, k, n):
    r = random.Random(seed + k)
    v = lambda *c: np.array([float(r.choice(c)) for _ in range(n)])
    return r, v


def five(rnd, kw):
    n, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    sim = FiveModulesHeatingSimulator(n, 5, heatdemand_algo=rnd.choice(["heat_max_emmiters", "room_estimation"]), data=house(rnd), **kw)

    def step(k):
        r, v = heat_inputs(seed, k, n)
        x = {}
        if r.random() < .3:
            x["external_sh_outputs"] = v(np.nan, 50, 0)
        if r.random() < .3:
            x["external_cylinder_temperature"] = v(np.nan, 51)
        if r.random() < .3:
            x["external_target_temperature"] = v(18, 22)
        sim.step(float(r.choice([3, 5, 9])), float(r.choice([0, 40])), v(0, 0, 2), v(0, 20), v(0, 9), v(0, 30), **x)
    return sim, step, []


TG = ("space_heating", "dhw", "emitter")


def thermostats(rnd, kw):
    n, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    sim = Thermostats(n, data=house(rnd), **kw)

    def step(k):
        r, v = heat_inputs(seed, k, n)
        sim.step({"cylinder": v(40, 50, 58), "interior": v(15, 20, 25), "emitter": v(30, 45, 60)},
                 *([{"space_heating": v(18, 22)}] if r.random() < .4 else []))
    return sim, step, []


def system(rnd, kw):
    n, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    sim = HeatingSystem(n, data=house(rnd), **kw)

    def step(k):
        r, v = heat_inputs(seed, k, n)
        sim.step({c: v(0, 1) > 0 for c in ("heater_on", "heat_water_on", "space_heating_on")}, {c: v(0, 30, 200) for c in ("dhw", "space_heating")})
    return sim, step, []


def controls(rnd, kw):
    n, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    sim = SystemControls(n, is_combi_boiler=np.array([rnd.random() < .5 for _ in range(n)]), **kw)

    def step(k):
        r, v = heat_inputs(seed, k, n)
        sim.step(v(0, 1), {c: v(0, 1) > 0 for c in ("hot_water", "space_heating", "emitter")})
    return sim, step, []


def building(rnd, kw):
    n, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    data = house(rnd)
    hs = HeatingSystem(n, data=data)
    sim = BuildingThermalDynamics(n, hs, 4, data=data, target_temperatures=np.full(n, 20.), **kw)

    def step(k):
        r, v = heat_inputs(seed, k, n)
        sim.step(5., 10., v(0, 1), v(0, 30), v(0, 10), v(0, 50), {"space_heating": v(0, 100), "dhw": v(0, 60)})
    return sim, step, []


def demand(rnd, kw):
    n, seed = rnd.randint(1, 4), rnd.randrange(1 << 30)
    data = house(rnd)
    hs = HeatingSystem(n, data=data)
    b = BuildingThermalDynamics(n, hs, 4, data=data, target_temperatures=np.full(n, 20.))
    sim = HeatDemand(n, hs, b, **kw)

    def step(k):
        r, v = heat_inputs(seed, k, n)
        sim.step({"cylinder": v(40, 50), "interior": v(15, 22), "emitter": v(30, 45), "building": v(9, 12), "cold_water": v(10)},
                 {"space_heating": v(20), "dhw": v(50), "emitter": v(45)}, v(0, 2), 5.)
    return sim, step, []


def set_points(rnd, kw):
    n, seed = rnd.randint(3, 9), rnd.randrange(1 << 30)
    v = lambda k: np.array([random.Random(seed + 31 * k + h).choice([0, 0, 1, 2]) for h in range(n)])
    sim = VariableThermostatTemperatureSimulator(n, v(0), v(0), dt.datetime(2014, 1, 1, 5, 50), **kw)
    return sim, lambda k: sim.step(v(k), v(k) // 2), []


def load(kind, inc_climate, inc_heating):
    def build(rnd, kw):
        sim = LoadSimulator(rnd.randint(1, 4), dt.datetime(2014, 1, rnd.randint(1, 28), 4, rnd.choice([0, 10])), include_heating=inc_heating,
                            include_climate=inc_climate, data=loadsim.KINDS[kind](), **kw)
        seed = rnd.randrange(1 << 30)
        return sim, lambda k: sim.step(**({} if inc_climate else {"external_irradiance": (seed + k) % 80, "external_outside_temperature": (seed + k) % 20})), []
    return build


def example(rnd, kw):
    n = rnd.randint(1, 4)
    sim = ExampleSimulator(n, 5, **kw)
    return sim, lambda k: sim.step(np.full(n, k % 3), np.full(n, k % 2)), []


def example_timed(rnd, kw):
    n = rnd.randint(1, 4)
    sim = TimeAwareExampleSimulator(n, 5, start_datetime=dt.datetime(2014, 1, 1, 4, 3), step_size=dt.timedelta(minutes=1), **kw)
    return sim, lambda k: sim.step(np.full(n, k % 3), np.full(n, k % 2)), []


ZOO = {"markov": markov, "semi": semi, "individuals": individuals(MarkovChain1rstOrder), "individuals_semi": individuals(SemiMarkovSimulator),
       "sparse": sparse_states, "transit": transit, "transit_multi": transit_multi, "crest_one": crest_one, "crest_four": crest_four,
       "appl_occ": appliance("occ"), "appl_act": appliance("act"), "appl_prob": appliance("prob"), "fisher": fisher, "bulbs": bulbs,
       "real_climate": weather(RealClimate), "interpolated": weather(RealInterpolatedClimate), "crest_climate": crest_weather(CrestClimateSimulator),
       "crest_irradiance": crest_weather(CrestIrradianceSimulator), "five": five, "thermostats": thermostats, "system": system,
       "controls": controls, "building": building, "demand": demand, "set_points": set_points,
       "load": load("records", True, True), "load_four": load("four", True, False), "load_bare": load("records", False, True),
       "load_crest": load("crest", True, True), "example": example, "example_timed": example_timed}


def build(name, seed, logger=None):
    rnd = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    random.seed(seed)
    return ZOO[name](rnd, {} if logger is None else {"logger": logger})
