"""C08: sparse transition matrices."""


def run(ctx):
    ctx.model("MCSparse", ctx.pick("MCSparse.cfg", "MCSparseBig.cfg"))
    beh = ctx.behaviours_from("MCSparse", ctx.pick("MCSparseGen.cfg", "MCSparseGenBig.cfg"), limit=ctx.pick(800, 8000))
    traces = ctx.drive("sparse", {"beh": beh, "random": ctx.pick(600, 8000), "large": ctx.pick(12, 100)})
    ctx.judge("SparseTrace", traces)
