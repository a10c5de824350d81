"""C21: diaries (trans)."""


def run(ctx):
    ctx.model("MCDiaries", ctx.pick("MCDiaries.cfg", "MCDiariesBig.cfg"))
    beh = ctx.behaviours_from("MCDiaries", ctx.pick("MCDiariesGen.cfg", "MCDiariesGenBig.cfg"), limit=ctx.pick(1100, 12000))
    jobs = [{"beh": beh[i::8], "what": ["trans"], "random": ctx.pick(25, 300)} for i in range(8)]
    ctx.judge("DiariesTrace", ctx.drive("diaries", jobs=jobs), workers=8, chunk=ctx.pick(4000, 8000))
