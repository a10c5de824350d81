"""C04: getters and observation."""
CLAUSES = {"raised", "unknown_event", "counter", "after_ready", "getter_shows_current_state", "household_entry"}
NAMES = ["markov", "semi", "individuals", "individuals_semi", "sparse", "transit", "transit_multi", "crest_one", "crest_four", "appl_occ",
         "appl_act", "appl_prob", "fisher", "bulbs", "real_climate", "interpolated", "crest_climate", "crest_irradiance", "five", "thermostats",
         "system", "controls", "building", "demand", "set_points", "load", "load_four", "load_bare", "load_crest", "example", "example_timed"]


def observe(ctx, seeds, runs):
    beh = ctx.behaviours_from("SimCoreGen", ctx.pick("SimCoreGen.cfg", "SimCoreGenBig.cfg"), limit=ctx.pick(2000, 20000))
    jobs = [{"beh": beh[i::8][:400], "names": NAMES[i::8], "seeds": seeds, "runs": runs, "repeat": 3} for i in range(8)]
    return beh, ctx.drive("observe", jobs=jobs)


def run(ctx):
    ctx.model("SimCore", ctx.pick("SimCore.cfg", "SimCoreBig.cfg"))
    beh, traces = observe(ctx, ctx.pick(4, 20), ctx.pick(6, 20))
    ctx.judge("SimCoreTrace", ctx.drive("simcore", {"beh": beh, "merges": 0}), only=CLAUSES)
    ctx.judge("ObserveTrace", traces, workers=8, chunk=ctx.pick(4000, 8000))
