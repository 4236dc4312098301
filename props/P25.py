from .mvcommon import cfg as base


def run(ctx):
    t = ctx.thorough
    c = base("random", 4, 5, 5, "TRUE").replace("NEXT Next", "NEXT ANext").replace("Formed PrintCase", "Formed Spread AngleOk PrintCase")
    cases = ctx.cases(ctx.tlc("AveragesMC", c, simulate=2500 if t else 250, depth=60))
    big = ctx.cases(ctx.tlc("AveragesMC", c.replace("MaxAtoms = 4", "MaxAtoms = 16").replace("Spread AngleOk ", "Spread "), simulate=150 if t else 25, depth=60))
    for b in big:       # two-digit atoms: fewer replicas, since the angles grow with the third power
        for o in b["hist"]:
            if o["op"] == "angle":
                o["scale"], o["rch"] = [1, 1, 1], min(o["rch"], 123)
    cases += big
    ctx.log("cases:", len(cases))
    ctx.judge("AveragesTrace", ctx.drive("d_averages", cases))
