import os
from vf import build, core


def run(ctx):
    d = os.path.join(core.REPO, "source/descriptor")
    build.harness(ctx, "mtp", extra=[os.path.join(d, "mtp/src/mtpLevel.cc"), os.path.join(d, "mtpr/src/mtpParam.cc")],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    th = ctx.thorough
    ctx.tlc("MtpLevelMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS LevelOk OnlyBags CanonOk ScalarOk\nCONSTANT MaxL = %d\n" % (16 if th else 12))
    cases = ctx.cases(ctx.tlc("MtpLevelMC", "INIT Init\nNEXT GenNext\nCHECK_DEADLOCK FALSE\nINVARIANT GenPrint\nCONSTANT MaxL = 0\n", simulate=600 if th else 80, depth=15))
    cases += [{"kind": "level", "level": l} for l in range(0, (27 if th else 23))]
    ctx.judge("MtpLevelTrace", ctx.drive("d_mtplevel", cases))
