"""C10: appliance uses (and, with other clauses of the same runs, C11)."""
USE = {"raised", "unknown_event", "owned_only", "starts_when_drawn", "runs_whole_cycle", "starts_only_when_allowed", "stops_in_time",
       "ownership_as_requested", "compatible_appliances"}
POW = {"raised", "unknown_event", "power_of_each_appliance", "water_of_each_appliance", "not_owned_consumes_nothing", "standby_or_mean",
       "household_is_the_sum", "hot_water_from_draws"}


def traces(ctx, quick, thorough):
    ctx.model("MCAppliance", ctx.pick("MCAppliance.cfg", "MCApplianceBig.cfg"))
    beh = ctx.behaviours_from("MCAppliance", ctx.pick("MCApplianceGen.cfg", "MCApplianceGenBig.cfg"), limit=ctx.pick(700, 9000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k]} for i in range(0, len(beh), k)]
    for i in range(ctx.pick(*quick)):
        jobs.append({"n": ctx.pick(18, 36), "free": ctx.pick(9, 24)})
    return ctx.drive("appliances", jobs=jobs)


def run(ctx):
    ctx.judge("ApplianceTrace", traces(ctx, (8, 60), None), workers=8, chunk=ctx.pick(3000, 6000), only=USE)
