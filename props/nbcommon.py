import itertools, math, random
from vf import build
from vf.plain import plain


def tight_umax(case):
    """The largest neighbour count, by brute force over images: a caller's tightest legal table width."""
    qy = plain(case["qy"])
    c, pos = qy["cell"], qy["pos"]

    def cross(u, v):
        return (u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0])
    det = abs(sum(a*b for a, b in zip(c[0], cross(c[1], c[2]))))
    rc = qy["rch"] / 2.0
    R = []
    for k in range(3):
        o = cross(c[(k+1) % 3], c[(k+2) % 3])
        h = [sum(a*b for a, b in zip(p, o)) for p in pos]
        R.append(int(rc * math.sqrt(sum(x*x for x in o)) / det) + 1 + (max(h) - min(h)) // det if qy["pbc"][k] else 0)
    best = 0
    sh = [[sum(n[a]*c[a][d] for a in range(3)) for d in range(3)]
          for n in itertools.product(*[range(-r, r+1) for r in R])]
    for p in pos:
        cnt = 0
        for p2 in pos:
            dx, dy, dz = p2[0]-p[0], p2[1]-p[1], p2[2]-p[2]
            for s in sh:
                d2 = (dx+s[0])**2 + (dy+s[1])**2 + (dz+s[2])**2
                if d2 and 4*d2 < qy["rch"]**2:
                    cnt += 1
        best = max(best, cnt)
    return best


def mc_queries(ctx):
    """The exhaustive small model."""
    cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Mutual NoSelf PrintCase\nCONSTANTS\n Emit = TRUE\n K = 2\n"
           " SortSet = {TRUE}\n CellSet <- MCCells\n FracPairs <- MCFrac\n RchSet <- MCRch\n")
    out = ctx.tlc("NbListMCx" if ctx.thorough else "NbListMCq", cfg, timeout=600)
    return [{"qy": dict(q, cart=bool(k % 2)), "K": 2, "M": 1} for k, q in enumerate(ctx.cases(out))]


def sim_queries(ctx, n, images=400, atoms=6, least=1):
    res = []
    for dy in (True, False):
        out = ctx.tlc("NbListGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = %d\n MaxAtoms = %d\n"
                      " MaxImages = %d\n Dyadic = %s\n" % (least, atoms, images, "TRUE" if dy else "FALSE"), simulate=n, depth=40 if least == 1 else 150)
        res += ctx.cases(out)
    return res


def fine_queries(ctx, n):
    """Distances and cutoffs that differ by millionths of an angstrom."""
    cfg = ("INIT Init\nNEXT FNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Kept PrintFine\nCONSTANTS\n MinAtoms = 1\n MaxAtoms = 5\n MaxImages = %d\n Dyadic = TRUE\n")
    return ctx.cases(ctx.tlc("NbListFine", cfg % 250, simulate=n, depth=60)) + ctx.cases(ctx.tlc("NbListFine", cfg.replace("MaxAtoms = 5", "MaxAtoms = 1") % 4000, simulate=n // 15, depth=60))


def gather(ctx):
    cases = mc_queries(ctx) + sim_queries(ctx, 3000 if ctx.thorough else 260, 900 if ctx.thorough else 400, 8 if ctx.thorough else 6)
    cases += sim_queries(ctx, 200 if ctx.thorough else 25, 125, 40, 11)    # two-digit numbers of atoms
    cases += fine_queries(ctx, 1200 if ctx.thorough else 150)
    for k, c in enumerate(cases):
        c["umax"] = max(1, tight_umax(c)) + (0 if k % 3 == 0 else k % 7)
    return cases


def with_bins(ctx, cases):
    """The same queries for the C++ class: default bins, and bins of 2/8 .. 12/8 of the cutoff along each axis."""
    rnd = random.Random(ctx.seed)
    res = []
    for k, c in enumerate(cases):
        c = dict(c, op="nl")
        if k % 3:
            c["bins"] = [rnd.randint(3, 12) for _ in range(3)]
        res.append(c)
    return res


def run_both(ctx, prop):
    build.nblist(ctx)
    build.harness(ctx, "nbl", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-include", "array"])
    cases = gather(ctx)
    ctx.log("queries:", len(cases), "widest:", sorted(c["umax"] for c in cases)[-8:])
    tr = ctx.drive("d_nblist", cases)
    tr2 = ctx.drive("d_nblcpp", with_bins(ctx, cases))
    for t in tr2:
        t["id"] += 100000
    ctx.judge("NbListTrace", tr + tr2, "CONSTANT Prop = \"%s\"\n" % prop)
