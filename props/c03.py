"""C03: logged series."""
from props.c04 import observe

CLAUSES = {"raised", "unknown_event", "log_aligned", "part_log_aligned", "log_length", "own_logger", "copy_is_empty",
           "copy_attributes", "merge_refused_iff_lengths_differ", "merge_keeps_both", "single_attribute_default",
           "unknown_attribute_refused"}


def run(ctx):
    ctx.model("SimCore", ctx.pick("SimCore.cfg", "SimCoreBig.cfg"))
    beh = ctx.behaviours_from("SimCoreGen", ctx.pick("SimCoreGen.cfg", "SimCoreGenBig.cfg"), limit=ctx.pick(4000, 30000))
    traces = ctx.drive("simcore", {"beh": beh, "merges": 60})
    ctx.judge("SimCoreTrace", traces, only=CLAUSES)
    ctx.judge("ObserveTrace", observe(ctx, ctx.pick(3, 10), ctx.pick(4, 12))[1], only={"log_aligned", "raised"}, workers=8)
