"""C18: climate simulators (and, with other clauses of the same runs, C25: windows of recorded climate)."""
WINDOW = {"refused_only_when_too_late", "refused_when_too_late", "starts_in_force", "every_record_in_order", "all_quantities_alike"}
SIM = {"starts_where_it_can", "refused_where_it_cannot", "clock", "record_in_force", "interpolates", "irradiance_of_the_moment",
       "temperature_of_the_moment", "sane"}


def runs(ctx, gen):
    ctx.model("MCClimate", ctx.pick("MCClimate.cfg", "MCClimateBig.cfg"))
    beh = ctx.behaviours_from("MCClimate", ctx.pick("MCClimateGen.cfg", "MCClimateGenBig.cfg"), limit=ctx.pick(400, 4000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k]} for i in range(0, len(beh), k)]
    jobs += [{"n": ctx.pick(60, 150), "gen": gen} for _ in range(ctx.pick(8, 48))]
    return ctx.drive("climate", jobs=jobs)


def run(ctx):
    ctx.judge("ClimateTrace", runs(ctx, ctx.pick(4, 10)), workers=8, chunk=ctx.pick(3000, 6000), only={"raised", "unknown_event"} | SIM)
