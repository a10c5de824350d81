"""C19: Monte Carlo draws and validity of distributions."""


def run(ctx):
    ctx.model("MCMonteCarlo", ctx.pick("MCMonteCarlo.cfg", "MCMonteCarloBig.cfg"))
    beh = ctx.behaviours_from("MCMonteCarlo", ctx.pick("MCMonteCarloGen.cfg", "MCMonteCarloGenBig.cfg"),
                              limit=ctx.pick(1500, 20000))
    traces = ctx.drive("montecarlo", {"beh": beh, "random": ctx.pick(60, 800), "valid": ctx.pick(40, 600)})
    ctx.judge("MonteCarloTrace", traces)
