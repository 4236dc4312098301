from .dscommon import cfg


def run(ctx):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("DataSetMC", cfg("files", 2, 2, 1)))
    import random
    rnd = random.Random(ctx.seed)
    if not t and len(cases) > 400:
        cases = rnd.sample(cases, 400)
    cases += ctx.cases(ctx.tlc("DataSetMC", cfg("random", 5, 4, 6), simulate=1500 if t else 250, depth=20))
    cases += ctx.cases(ctx.tlc("DataSetMC", cfg("random", 13, 12, 6), simulate=100 if t else 12, depth=40))     # two-digit numbers of files and frames
    cases = [dict(c, kind="many") for c in cases]
    ctx.log("cases:", len(cases))
    ctx.judge("DataSetTrace", ctx.drive("d_dataset", cases))
