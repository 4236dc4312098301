def cfg(mode, n, d):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Theorems PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxPts = %d\n Depth = %d\n" % (mode, n, d))


def run(ctx):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("KPtsMC", cfg("all", 0, 0), workers=1))
    cases += ctx.cases(ctx.tlc("KPtsMC", cfg("random", 25 if t else 12, 5), simulate=8000 if t else 900, depth=40))
    cases += ctx.cases(ctx.tlc("KPtsMC", cfg("random", 130, 4), simulate=200 if t else 20, depth=40))
    ctx.log("cases:", len(cases))
    ctx.judge("KPtsTrace", ctx.drive("d_kpts", cases))
