"""C07: semi-Markov activities."""


def run(ctx):
    for c in ("MCSemiMarkov.cfg", "MCSemiMarkovPrev.cfg") + (("MCSemiMarkovBig.cfg",) if ctx.thorough else ()):
        ctx.model("MCSemiMarkov", c)
    limit = ctx.pick(600, 4000)
    beh = []
    for c in ("MCSemiMarkovGen.cfg", "MCSemiMarkovGenPrev.cfg") + (("MCSemiMarkovGenBig.cfg", "MCSemiMarkovGenBig3.cfg") if ctx.thorough else ()):
        beh += ctx.behaviours_from("MCSemiMarkov", c, limit=limit)
    jobs = [{"beh": beh, "untimed": 60, "timed": 0, "spread": True}]
    for i in range(ctx.pick(5, 60)):
        jobs.append({"untimed": ctx.pick(20, 40), "timed": ctx.pick(6, 9)})
    traces = ctx.drive("semimarkov", jobs=jobs)
    ctx.judge("SemiMarkovTrace", traces, workers=8, chunk=ctx.pick(8000, 12000))
