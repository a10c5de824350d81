"""C30: the parser of the German time-use survey."""


def run(ctx):
    ctx.model("MCSurvey", ctx.pick("MCSurvey.cfg", "MCSurveyBig.cfg"))
    beh = ctx.behaviours_from("MCSurvey", ctx.pick("MCSurveyGen.cfg", "MCSurveyGenBig.cfg"), limit=ctx.pick(3000, 30000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k], "replay": True, "n": ctx.pick(4, 20)} for i in range(0, len(beh), k)]
    jobs += [{"beh": beh[i::29], "n": ctx.pick(6, 30)} for i in range(ctx.pick(8, 24))]
    ctx.judge("SurveyTrace", ctx.drive("survey", jobs=jobs), workers=8, chunk=1200)
