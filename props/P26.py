def run(ctx):
    t = ctx.thorough
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Faithful Legal PrintCase\nCONSTANTS\n Depth = %d\n Files = 3\n" % (12 if t else 8)
    cases = ctx.cases(ctx.tlc("InputFilesMC", cfg, simulate=4000 if t else 300, depth=30))
    ctx.log("cases:", len(cases))
    ctx.judge("InputFilesTrace", ctx.drive("d_inputs", cases))
