"""C29: ownership and targets of appliances."""


def run(ctx):
    ctx.model("MCEquip", ctx.pick("MCEquip.cfg", "MCEquipBig.cfg"))
    beh = ctx.behaviours_from("MCEquip", ctx.pick("MCEquipGen.cfg", "MCEquipGenBig.cfg"), limit=ctx.pick(1600, 24000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k], "splits": i == 0} for i in range(0, len(beh), k)]
    jobs += [{"n": ctx.pick(60, 400)} for _ in range(ctx.pick(8, 40))]
    ctx.judge("EquipTrace", ctx.drive("equip", jobs=jobs), workers=8, chunk=ctx.pick(4000, 8000))
