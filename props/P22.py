import glob, os
from vf import build, core


def run(ctx):
    d = os.path.join(core.REPO, "source/descriptor")
    build.harness(ctx, "mtp", extra=[os.path.join(d, "mtp/src/mtpLevel.cc"), os.path.join(d, "mtpr/src/mtpParam.cc")],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    th = ctx.thorough
    cases = ctx.cases(ctx.tlc("MtpTemplateMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact PrintCase\n", simulate=3000 if th else 500, depth=12))
    n = 0
    for c in cases:
        if c["d"]["kind"] == "none" and n < (60 if th else 6):
            n, c["cuts"] = n + 1, 1
    for p in sorted(glob.glob(os.path.join(d, "mtpr/MTP_templates/*.almtp"))):
        lev = int(os.path.basename(p).split(".")[0].split("-")[-1])
        if lev <= (28 if th else 22):
            cases.append({"kind": "shipped", "path": p, "program": lev <= (20 if th else 16)})
    ctx.judge("MtpTemplateTrace", ctx.drive("d_mtptemplate", cases))
