"""C17: the load simulator."""


def run(ctx):
    ctx.model("MCLoadSim", ctx.pick("MCLoadSim.cfg", "MCLoadSimBig.cfg"))
    beh = ctx.behaviours_from("MCLoadSim", ctx.pick("MCLoadSimGen.cfg", "MCLoadSimGenBig.cfg"), limit=ctx.pick(1000, 6000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k]} for i in range(0, len(beh), k)]
    jobs += [{"free": ctx.pick(30, 100)} for _ in range(8)]
    ctx.judge("LoadSimTrace", ctx.drive("loadsim", jobs=jobs), workers=8, chunk=ctx.pick(4000, 8000))
