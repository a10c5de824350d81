"""C12: thermostats (and the runs shared by C13, C14, C15)."""
KINDS = {"C12": ["thermo"], "C13": ["controls", "system", "net"], "C14": [], "C15": ["net"]}
CLAUSES = {
    "C12": {"hysteresis", "set_point", "external_set_point"},
    "C13": {"controls", "demand", "heat_allocation", "total_heat", "fuel_from_heat", "demand_getters"},
    "C14": {"external_set_point", "external_heat", "external_cylinder_controls", "external_power", "inputs_untouched", "set_point", "heat_allocation",
            "controls", "demand_getters", "energy_balance", "fuel_from_heat"},
    "C15": {"energy_balance", "starts_near_target"},
}


def run(ctx):
    p = ctx.prop
    ctx.model("MCHeating", "MCHeating.cfg")
    if ctx.thorough:
        ctx.model("MCHeating", "MCHeatingBig.cfg")
        ctx.model("MCHeating", "MCHeatingWide.cfg")
    beh = ctx.behaviours_from("MCHeating", ctx.pick("MCHeatingGen.cfg", "MCHeatingGenBig.cfg"), limit=ctx.pick(1200, 20000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k]} for i in range(0, len(beh), k)]
    for i in range(ctx.pick(8, 64)):
        jobs.append({"n": ctx.pick(30, 60), "kinds": KINDS[p]})
    traces = ctx.drive("heating", jobs=jobs)
    ctx.judge("HeatingTrace", traces, workers=8, chunk=ctx.pick(4000, 6000), only={"raised", "unknown_event"} | CLAUSES[p])
