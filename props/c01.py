"""C01: clock and initialisation."""


def run(ctx):
    ctx.model("Clock", ctx.pick("Clock.cfg", "ClockBig.cfg"))
    ctx.model("Clock", "ClockWide.cfg")
    beh = ctx.behaviours_from("ClockGen", "ClockGen.cfg")
    traces = ctx.drive("clock", {"beh": beh, "random": ctx.pick(1500, 15000)})
    names = ["individuals", "individuals_semi", "crest_four", "appl_occ", "crest_climate", "crest_irradiance", "example_timed", "appl_act", "appl_prob"]
    traces += ctx.drive("clockreal", jobs=[{"names": [x], "n": ctx.pick(6, 40)} for x in names])
    # which callbacks a step shows is C02's
    ctx.judge("ClockTrace", traces, only={
        "raised", "unknown_event", "phase_ok", "first_reachable", "clock_at_step_start", "clock_after_step", "counter",
        "no_init_step_beyond_start", "initialised_once", "clock_is_start", "all_whole_steps_run",
        "counter_is_steps_run", "time_zone_kept", "refusal"})
