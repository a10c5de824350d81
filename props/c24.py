"""C24: the store of parsed data."""
KINDS = ["population", "appliances", "appliances_np", "profiles", "ownership", "switchons", "consumption", "duration", "clearness", "arma", "geo", "fisher",
         "crest_lighting", "bulbs", "bulbs_config", "bulbs_stats", "buildings", "heating_system", "thermostat", "tpm", "tpm_duration", "sparse",
         "activity_profiles", "starts", "durations", "probabilities", "ninja", "gtou", "tracebase", "crest_tpm"]


def run(ctx):
    ctx.model("MCStore", ctx.pick("MCStore.cfg", "MCStoreBig.cfg"))
    h = ctx.behaviours_from("MCStore", ctx.pick("MCStoreGen.cfg", "MCStoreGenBig.cfg"), limit=ctx.pick(900, 12000))
    w = ctx.behaviours_from("MCStore", ctx.pick("MCStoreTurns.cfg", "MCStoreTurnsBig.cfg"), limit=ctx.pick(240, 2000))
    jobs = [{"kinds": KINDS[i::8], "histories": h[i::8], "turns": w[i::8], "limits": ctx.pick(8, 60), "climate": ctx.pick(8, 100), "mixed": ctx.pick(12, 150)} for i in range(8)]
    ctx.judge("StoreTrace", ctx.drive("store", jobs=jobs), workers=8, chunk=ctx.pick(8000, 8000))
