def run(ctx):
    t = ctx.thorough
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Righthanded PrintCase\nCONSTANTS\n MaxAtoms = %d\n Depth = 5\n" % (8 if t else 5)
    cases = ctx.cases(ctx.tlc("PerturbMC", cfg, simulate=3000 if t else 300, depth=30))
    cases += ctx.cases(ctx.tlc("PerturbMC", cfg.replace("MaxAtoms = 8" if t else "MaxAtoms = 5", "MaxAtoms = 24").replace("Depth = 5", "Depth = 2"), simulate=150 if t else 20, depth=30))
    cases += [dict(c, many=1) for c in cases[:20 if t else 4]]
    ctx.log("cases:", len(cases))
    ctx.judge("PerturbTrace", ctx.drive("d_perturb", cases))
