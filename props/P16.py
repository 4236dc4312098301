def cfg(mode, k, b, d):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Theorems PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxK = %d\n MaxB = %d\n Depth = %d\n" % (mode, k, b, d))


def run(ctx):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("BandsMC", cfg("all", 0, 0, 0), workers=1))
    cases += ctx.cases(ctx.tlc("BandsMC", cfg("random", 12 if t else 6, 24 if t else 13, 8), simulate=6000 if t else 700, depth=40))
    cases += ctx.cases(ctx.tlc("BandsMC", cfg("random", 12, 40, 6), simulate=60 if t else 12, depth=40))
    ctx.log("cases:", len(cases))
    ctx.judge("BandsTrace", ctx.drive("d_bands", cases))
