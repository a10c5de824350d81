"""C26: load metrics."""


def run(ctx):
    ctx.model("MCLoadMetrics", ctx.pick("MCLoadMetrics.cfg", "MCLoadMetricsBig.cfg"))
    beh = ctx.behaviours_from("MCLoadMetrics", ctx.pick("MCLoadMetricsGen.cfg", "MCLoadMetricsGenBig.cfg"), limit=ctx.pick(1000, 20000))
    jobs = [{"beh": beh[i::8], "random": ctx.pick(60, 600)} for i in range(8)]
    ctx.judge("LoadMetricsTrace", ctx.drive("loadmetrics", jobs=jobs), workers=8, chunk=ctx.pick(4000, 8000))
