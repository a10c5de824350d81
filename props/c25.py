"""C25: windows of recorded climate."""
from props.c18 import WINDOW, runs


def run(ctx):
    ctx.judge("ClimateTrace", runs(ctx, 0), workers=8, chunk=ctx.pick(3000, 6000), only={"unknown_event"} | WINDOW)
