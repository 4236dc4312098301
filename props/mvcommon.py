def cfg(mode, atoms, frames, depth, grid):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Formed PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxAtoms = %d\n MaxFrames = %d\n"
            " Depth = %d\n Grid = %s\n" % (mode, atoms, frames, depth, grid))


def run(ctx, mine):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("MovementMC", cfg("all", 2, 2, 1, "FALSE"), workers=1))
    cases += ctx.cases(ctx.tlc("MovementMC", cfg("random", 9 if t else 5, 7 if t else 4, 8, "FALSE"), simulate=2500 if t else 250, depth=60))
    cases += ctx.cases(ctx.tlc("MovementMC", cfg("random", 4, 3, 8, "TRUE"), simulate=1500 if t else 120, depth=60))
    cases += ctx.cases(ctx.tlc("MovementMC", cfg("random", 24, 14, 6, "FALSE"), simulate=60 if t else 14, depth=60))     # two and three digits
    cases += ctx.cases(ctx.tlc("MovementMC", cfg("mixed", 5, 5, 6, "FALSE"), simulate=400 if t else 50, depth=60))         # frames with elements of their own
    res = []
    for k, c in enumerate(cases):
        c["hist"] = [o for o in c["hist"] if mine(o["op"])]
        c["old"] = not any(o["op"][:2] != "m_" for o in c["hist"]) and k % 5 == 0
        if c["hist"]:
            res.append(c)
    ctx.log("cases:", len(res))
    ctx.judge("MovementTrace", ctx.drive("d_movement", res))
