import itertools, random


def gen(ctx, n_sim, copies=90, atoms=5):
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Tiles Mutual OrderOk PrintCase\nCONSTANTS\n Mode = \"%s\"\n MinAtoms = %d\n MaxAtoms = %d\n MaxCopies = %d\n")
    res = ctx.cases(ctx.tlc("PyStructGen", cfg % ("all", 1, 3, 60 if not ctx.thorough else 135)))
    res += ctx.cases(ctx.tlc("PyStructGen", cfg % ("random", 1, atoms, copies), simulate=n_sim, depth=60))
    big = ctx.cases(ctx.tlc("PyStructGen", cfg.replace("Mutual ", "") % ("random", 11, 40, 260), simulate=300 if ctx.thorough else 60, depth=120))
    for c in big:
        c["big"] = 1
    res += big
    rnd = random.Random(ctx.seed)
    for c in res:
        c["cart"] = rnd.random() < 0.5
    return res, rnd


def counts(c, scale=None):
    """Neighbour counts per centre and element inside the replica (for choosing legal table widths)."""
    st, s = c["st"], scale or c["scale"]
    cell, pos = st["cell"], st["pos"]
    h = [(x - 1) // 2 for x in s]
    sh = [[sum(n[a] * cell[a][d] for a in range(3)) for d in range(3)]
          for n in itertools.product(*[range(-x, x + 1) for x in h])]
    res = []
    for p in pos:
        d = {}
        for q, z in zip(pos, st["z"]):
            for t in sh:
                d2 = sum((q[k] + t[k] - p[k]) ** 2 for k in range(3))
                if d2 and 4 * d2 <= c["rch"] ** 2:
                    d[z] = d.get(z, 0) + 1
        res.append(d)
    return res


def run(ctx, ops, quick=250, deep=2500):
    cases, rnd = gen(ctx, deep if ctx.thorough else quick, 200 if ctx.thorough else 90, 7 if ctx.thorough else 5)
    if not ctx.thorough and len(cases) > 700:
        keep = set(rnd.sample(range(len(cases)), 700))
        cases = [c for k, c in enumerate(cases) if k in keep or "big" in c]
    for c in cases:
        c["ops"] = ops
        if "idx" in ops:
            zz = sorted(set(c["st"]["z"]))
            c["cz"] = rnd.sample(zz, rnd.randint(1, len(zz)))
            c["nz"] = rnd.sample(zz, rnd.randint(1, len(zz))) + (rnd.sample([z for z in (9, 2, 77, 117) if z not in zz], 1) if rnd.random() < 0.2 else [])
            n = counts(c)
            c["nmax"] = [max(x.get(z, 0) for x in n) + rnd.choice([0, 0, 1, 3]) for z in c["nz"]]
            # a width of 0 means "no padding" to this interface: it is then as wide as needed, which is 0 as well
        if "adj" in ops:
            c["adjscale"] = list(c["scale"])
            if rnd.random() < 0.1:
                c["adjscale"][rnd.randrange(3)] += 1
    ctx.log("cases:", len(cases))
    ctx.judge("PyStructTrace", ctx.drive("d_pystruct", cases))
