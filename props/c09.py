"""C09: occupancy counts."""


def run(ctx):
    ctx.model("MCOccupancy", ctx.pick("MCOccupancy.cfg", "MCOccupancyBig.cfg"))
    beh = ctx.behaviours_from("MCOccupancy", ctx.pick("MCOccupancyGen.cfg", "MCOccupancyGenBig.cfg"))
    k = -(-len(beh) // 4)
    jobs = [{"beh": beh[i:i + k], "n": 0} for i in range(0, len(beh), k)]
    for i in range(ctx.pick(4, 60)):
        jobs.append({"n": ctx.pick(12, 24)})
    traces = ctx.drive("occupancy", jobs=jobs)
    ctx.judge("OccupancyTrace", traces, workers=8, chunk=ctx.pick(3000, 12000))
