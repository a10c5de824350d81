"""C32: pictures show what was recorded."""


def run(ctx):
    ctx.model("MCPictures", ctx.pick("MCPictures.cfg", "MCPicturesBig.cfg"))
    beh = ctx.behaviours_from("MCPictures", ctx.pick("MCPicturesGen.cfg", "MCPicturesGenBig.cfg"), limit=ctx.pick(240, 4000))
    k = -(-len(beh) // 8)
    jobs = [{"beh": beh[i:i + k], "loggers": ctx.pick(10, 150), "pictures": ctx.pick(25, 300)} for i in range(0, len(beh), k)]
    ctx.judge("PicturesTrace", ctx.drive("plots", jobs=jobs), workers=8, chunk=400)
