"""C02: calendar callbacks (the clock itself is C01's)."""


def run(ctx):
    ctx.model("Clock", ctx.pick("Clock.cfg", "ClockBig.cfg"))
    beh = ctx.behaviours_from("ClockGen", "ClockGen.cfg")
    traces = ctx.drive("clock", {"beh": beh, "random": ctx.pick(250, 2500)})
    ctx.judge("ClockTrace", traces, only={"callbacks", "raised", "unknown_event"})
