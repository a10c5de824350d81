"""C16: lighting."""


def run(ctx):
    ctx.model("MCLighting", ctx.pick("MCLighting.cfg", "MCLightingBig.cfg"))
    beh = ctx.behaviours_from("MCLighting", ctx.pick("MCLightingGen.cfg", "MCLightingGenBig.cfg"), limit=ctx.pick(4200, 30000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k]} for i in range(0, len(beh), k)]
    jobs += [{"n": ctx.pick(120, 250), "free": ctx.pick(40, 80)} for _ in range(ctx.pick(8, 64))]
    ctx.judge("LightingTrace", ctx.drive("lighting", jobs=jobs), workers=8, chunk=ctx.pick(6000, 12000))
