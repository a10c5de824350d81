"""C28: variable set points."""


def run(ctx):
    ctx.model("MCSetPoints", ctx.pick("MCSetPoints.cfg", "MCSetPointsBig.cfg"))
    beh = ctx.behaviours_from("MCSetPoints", ctx.pick("MCSetPointsGen.cfg", "MCSetPointsGenBig.cfg"), limit=ctx.pick(3200, 24000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k]} for i in range(0, len(beh), k)]
    jobs += [{"n": ctx.pick(40, 120), "days": ctx.pick(8, 30)} for _ in range(ctx.pick(8, 48))]
    ctx.judge("SetPointsTrace", ctx.drive("setpoints", jobs=jobs), workers=8, chunk=ctx.pick(4000, 8000))
