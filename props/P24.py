from .mvcommon import cfg as base


def cfg(slow, depth, frames):
    return base("random", 4, frames, depth, "TRUE").replace("NEXT Next", "NEXT CNext").replace("Formed PrintCase", "Formed Held SetsJoin LastWins Stale PrintCase") + " Slow = %d\n" % slow


def run(ctx):
    t = ctx.thorough
    cases = ctx.cases(ctx.tlc("CollectionMC", cfg(0, 9, 13 if t else 11), simulate=3000 if t else 300, depth=60))
    cases += ctx.cases(ctx.tlc("CollectionMC", cfg(5, 6, 5), simulate=500 if t else 90, depth=60))
    cases += ctx.cases(ctx.tlc("CollectionMC", cfg(0, 6, 4).replace("MaxAtoms = 4", "MaxAtoms = 16"), simulate=200 if t else 25, depth=60))    # two-digit atoms
    cases += ctx.cases(ctx.tlc("CollectionMC", cfg(8, 3, 3).replace("MaxAtoms = 4", "MaxAtoms = 16"), simulate=100 if t else 16, depth=60))
    ctx.log("cases:", len(cases))
    ctx.judge("CollectionTrace", ctx.drive("d_collection", cases))
