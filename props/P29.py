from vf import build


def run(ctx):
    t = ctx.thorough
    build.harness(ctx, "core", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Laws Inside PrintCase\nCONSTANTS\n NV = 3\n NA = 3\n Depth = %d\n" % (60 if t else 40)
    cases = ctx.cases(ctx.tlc("CoreLibMC", cfg, simulate=3000 if t else 300, depth=160 if t else 110))
    ctx.log("sessions:", len(cases))
    ctx.judge("CoreLibTrace", ctx.drive("d_core", cases))
