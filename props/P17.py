def cfg(mode, el, rows, d):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Theorems PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxEl = %d\n MaxRows = %d\n Depth = %d\n" % (mode, el, rows, d))


def run(ctx):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("ProjMC", cfg("all", 2, 2, 2), workers=1))
    cases += ctx.cases(ctx.tlc("ProjMC", cfg("random", 5 if t else 4, 12 if t else 5, 14), simulate=4000 if t else 350, depth=40))
    cases += ctx.cases(ctx.tlc("ProjMC", cfg("random", 9, 60, 8), simulate=60 if t else 12, depth=40))
    ctx.log("cases:", len(cases))
    ctx.judge("ProjTrace", ctx.drive("d_proj", cases))
