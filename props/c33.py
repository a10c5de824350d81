"""C33: the CREST workbook."""


def run(ctx):
    ctx.model("MCCrestBook", ctx.pick("MCCrestBook.cfg", "MCCrestBookBig.cfg"))
    beh = ctx.behaviours_from("MCCrestBook", ctx.pick("MCCrestBookGen.cfg", "MCCrestBookGenBig.cfg"))
    k = ctx.pick(2, 6)
    jobs = [{"beh": beh, "replays": ctx.pick(1, 3), "refusals": ctx.pick(2, 6)} for i in range(k)]
    jobs += [{"books": ctx.pick(2, 5), "first": i, "big": ctx.pick([[6], [5], [4], [3], [4], [3]], [[3], [4], [5], [6], [3, 4], [5]])[i % 6]} for i in range(ctx.pick(6, 18))]
    ctx.judge("CrestBookTrace", ctx.drive("crestbook", jobs=jobs), workers=8, chunk=30)
