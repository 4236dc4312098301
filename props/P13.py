from .dscommon import cfg


def run(ctx):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("DataSetMC", cfg("parts", 1, 8 if t else 5, 10 if t else 6)))
    cases += ctx.cases(ctx.tlc("DataSetMC", cfg("random", 1, 30 if t else 14, 16), simulate=1500 if t else 150, depth=20))
    cases += ctx.cases(ctx.tlc("DataSetMC", cfg("random", 1, 130, 3), simulate=40 if t else 8, depth=160))
    cases = [dict(c, kind="one") for c in cases if len(c["files"]) == 1]
    ctx.log("cases:", len(cases))
    ctx.judge("DataSetTrace", ctx.drive("d_dataset", cases))
