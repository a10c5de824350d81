"""C06: first-order activity chains."""


def run(ctx):
    ctx.model("MCChain", ctx.pick("MCChain.cfg", "MCChainBig.cfg"))
    ctx.model("MCChain", "MCChainSparse.cfg")
    beh = ctx.behaviours_from("MCChain", ctx.pick("MCChainGen.cfg", "MCChainGenBig.cfg"))
    jobs = [{"beh": beh, "untimed": 60, "timed": 0, "spread": True}]
    for i in range(ctx.pick(5, 60)):
        jobs.append({"untimed": ctx.pick(20, 40), "timed": ctx.pick(8, 12)})
    traces = ctx.drive("chain", jobs=jobs)
    ctx.judge("ChainTrace", traces, workers=8, chunk=ctx.pick(8000, 12000))
