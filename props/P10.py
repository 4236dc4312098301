def run(ctx):
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip Formed PrintCase\nCONSTANTS\n Mode = \"%s\"\n MaxSites = %d\n Depth = %d\n Paths = {%s}\n"
    cases = ctx.cases(ctx.tlc("AtomConfigMC", cfg % ("all", 2, 2, '"a"')))
    cases += ctx.cases(ctx.tlc("AtomConfigMC", cfg % ("random", 12 if ctx.thorough else 6, 8, '"a", "b"'), simulate=3000 if ctx.thorough else 300, depth=60))
    cases += ctx.cases(ctx.tlc("AtomConfigMC", cfg % ("random", 130, 5, '"a", "b"'), simulate=60 if ctx.thorough else 10, depth=60))
    cases = [{"hist": h} for h in cases] + [{"tables": True}]
    ctx.log("cases:", len(cases))
    ctx.judge("AtomConfigTrace", ctx.drive("d_atomconfig", cases))
