"""C31: tables of measurements and statistics."""


def run(ctx):
    ctx.model("MCTables", ctx.pick("MCTables.cfg", "MCTablesBig.cfg"))
    beh = ctx.behaviours_from("MCTables", ctx.pick("MCTablesGen.cfg", "MCTablesGenBig.cfg"), limit=ctx.pick(3000, 22000))
    k = -(-len(beh) // 4)
    jobs = [{"beh": beh[i:i + k], "recordings": ctx.pick(8, 40)} for i in range(0, len(beh), k)]
    jobs += [{"own": ctx.pick(2, 8), "sgs": ctx.pick(18, 60), "shipped": i == 0, "climate": 6} for i in range(ctx.pick(3, 8))]
    jobs += [{"sheets": ctx.pick(5, 20), "climate": 6} for i in range(ctx.pick(2, 8))]
    jobs += [{"german": ctx.pick(3, 12), "climate": ctx.pick(6, 30)} for i in range(ctx.pick(1, 2))]
    ctx.judge("TablesTrace", ctx.drive("tables", jobs=jobs), workers=8, chunk=60)
