"""C20: population sampling."""


def run(ctx):
    ctx.model("MCPopulation", ctx.pick("MCPopulation.cfg", "MCPopulationBig.cfg"))
    beh = ctx.behaviours_from("MCPopulation", ctx.pick("MCPopulationGen.cfg", "MCPopulationGenBig.cfg"))
    traces = ctx.drive("population", {"beh": beh, "random": ctx.pick(60, 800)})
    ctx.judge("PopulationTrace", traces)
