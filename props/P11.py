KINDS = ["ac", "ds", "poscar", "mv", "mo", "info", "fermi", "report", "dos", "fat", "inkpt"]


def cfg(mode, d):
    return ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Theorems PrintCase\nCONSTANTS\n Mode = \"%s\"\n Depth = %d\n Versions = {1, 2, 3, 4}\n Getters = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}\n" % (mode, d))


def run(ctx):
    t = ctx.thorough
    small = ctx.cases(ctx.tlc("FileStoreMC", cfg("all", 3).replace("{1, 2, 3, 4}", "{1, 2, 3}"), workers=1))
    long_ = ctx.cases(ctx.tlc("FileStoreMC", cfg("random", 16), simulate=3000 if t else 260, depth=30))
    cases = [dict(c, kind=k) for k in KINDS for c in small] + [dict(c, kind=KINDS[j % len(KINDS)]) for j, c in enumerate(long_)]
    ctx.log("cases:", len(cases))
    ctx.judge("FileStoreTrace", ctx.drive("d_store", cases))
