def run(ctx):
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Kept PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxSites = %d\n Depth = %d\n"
    cases = ctx.cases(ctx.tlc("EditMC", cfg % ("all", 3, 2)))
    cases += ctx.cases(ctx.tlc("EditMC", cfg % ("random", 9, 8), simulate=3000 if ctx.thorough else 300, depth=80))
    cases += ctx.cases(ctx.tlc("EditMC", cfg % ("random", 60, 6), simulate=60 if ctx.thorough else 12, depth=80))
    ctx.log("cases:", len(cases))
    ctx.judge("EditTrace", ctx.drive("d_edit", cases))
