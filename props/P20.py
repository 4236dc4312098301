import random
from vf import build


def run(ctx):
    build.harness(ctx, "env", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-include", "array"])
    build.torch_ops(ctx)
    th = ctx.thorough
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Falls Mirror Trapezium PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxAtoms = %d\n Batch = 3\n"
    cases = ctx.cases(ctx.tlc("EnvMatMC", cfg % ("all", 4)))
    cases += ctx.cases(ctx.tlc("EnvMatMC", cfg % ("random", 9), simulate=1500 if th else 120, depth=12))
    rnd = random.Random(ctx.seed)
    for c in cases:
        q, nt = c["qs"], len(c["sel"])
        cs = sorted({x["t"][i] for x in q for i in x["centres"]})
        c["co"] = rnd.sample(cs, rnd.randint(1, len(cs)))
        c["no"] = rnd.sample(range(nt), rnd.randint(1, nt))
    n = len(cases)
    cases += ctx.cases(ctx.tlc("EnvCellGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = 1\n MaxAtoms = 6\n MaxRch = %d\n Far = 0\n" % (15 if th else 11),
                               simulate=1200 if th else 150, depth=40))
    cases += ctx.cases(ctx.tlc("EnvCellGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = 10\n MaxAtoms = 30\n MaxRch = 5\n Far = 0\n",
                               simulate=150 if th else 25, depth=130))
    cases += ctx.cases(ctx.tlc("EnvCellGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = 2\n MaxAtoms = 8\n MaxRch = 7\n Far = 1\n",
                               simulate=300 if th else 40, depth=50))      # atoms outside the home cell
    ctx.log("tables:", n, "crystals:", len(cases) - n)
    ctx.judge("EnvMatTrace", ctx.drive("d_env", cases))
