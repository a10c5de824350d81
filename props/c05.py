"""C05: multi simulators."""


def run(ctx):
    ctx.model("Multi", ctx.pick("Multi.cfg", "MultiBig.cfg"))
    beh = ctx.behaviours_from("MultiGen", "MultiGen.cfg", limit=ctx.pick(1500, 20000))
    traces = ctx.drive("multi", {"beh": beh, "random": ctx.pick(400, 4000)})
    ctx.judge("MultiTrace", traces)
