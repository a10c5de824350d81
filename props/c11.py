"""C11: power and water of appliances."""
from props.c10 import traces, POW


def run(ctx):
    ctx.judge("ApplianceTrace", traces(ctx, (8, 60), None), workers=8, chunk=ctx.pick(3000, 6000), only=POW)
