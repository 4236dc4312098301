import random


def run(ctx):
    th = ctx.thorough
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Named PrintCase\nCONSTANTS\n Depth = %d\n Files = 2\n" % (7 if th else 4)
    cases = ctx.cases(ctx.tlc("InferMC", cfg, simulate=1500 if th else 150, depth=40))
    n = len(cases)
    out = ctx.tlc("EnvCellGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = 1\n MaxAtoms = 6\n MaxRch = %d\n Far = 0\n" % (13 if th else 9),
                  simulate=900 if th else 200, depth=40)
    rnd = random.Random(ctx.seed)
    for c in ctx.cases(out):
        q = c["qy"]
        if c["total"] > 45:
            continue
        q = dict(q, wide=q["rch"])
        co = rnd.sample(sorted(set(q["z"])), len(set(q["z"])))
        cases.append({"qy": q, "co": co, "sel": [c["total"] + rnd.randint(0, 2) for _ in co], "unit": c["unit"], "reach": c["reach"]})
    ctx.log("checkpoints:", n, "crystals:", len(cases) - n)
    ctx.judge("InferTrace", ctx.drive("d_infer", cases))
