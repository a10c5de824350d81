"""C23: subgroups and time attributes."""


def run(ctx):
    ctx.model("MCSubgroups", ctx.pick("MCSubgroups.cfg", "MCSubgroupsBig.cfg"))
    beh = ctx.behaviours_from("MCSubgroups", ctx.pick("MCSubgroupsGen.cfg", "MCSubgroupsGenBig.cfg"),
                              limit=ctx.pick(1500, 20000))
    traces = ctx.drive("subgroups", {"beh": beh, "random": ctx.pick(12, 80)})
    ctx.judge("SubgroupsTrace", traces)
