from vf import build


def run(ctx):
    build.harness(ctx, "radial", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    build.torch_mtp(ctx)
    th = ctx.thorough
    cases = ctx.cases(ctx.tlc("MtpMomMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Radial0 Invariance PrintCase\nCONSTANT MaxL = %d\n" % (10 if th else 9),
                              simulate=4000 if th else 420, depth=4))
    ctx.judge("MtpMomTrace", ctx.drive("d_mtpmom", cases))
