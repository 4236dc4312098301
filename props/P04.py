from vf import build
from . import nbcommon


def run(ctx):
    build.harness(ctx, "nbl", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-include", "array"])
    out = ctx.tlc("SupercellMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Tiles Holds PrintCase\nCONSTANTS\n"
                  " Cells <- MCells\n Sites <- MSites\n MaxScale = %d\n" % (5 if ctx.thorough else 3))
    cases = [dict(c, op="super", K=2, M=1) for c in ctx.cases(out)]
    q = nbcommon.sim_queries(ctx, 2000 if ctx.thorough else 200)
    q += nbcommon.sim_queries(ctx, 100 if ctx.thorough else 12, 125, 40, 11)
    for k, c in enumerate(q):
        c["umax"] = max(1, nbcommon.tight_umax(c))
    cases += nbcommon.with_bins(ctx, q)
    ctx.log("cases:", len(cases))
    tr = ctx.drive("d_nblcpp", cases)
    ctx.judge("SupercellTrace", tr)
