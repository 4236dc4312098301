import random


def run(ctx):
    th = ctx.thorough
    out = ctx.tlc("EnvCellGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = 1\n MaxAtoms = 6\n MaxRch = %d\n Far = 0\n" % (13 if th else 9),
                  simulate=900 if th else 220, depth=40)
    big = ctx.tlc("EnvCellGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\nCONSTANTS\n MinAtoms = 10\n MaxAtoms = 30\n MaxRch = 5\n Far = 0\n",
                  simulate=150 if th else 25, depth=130)
    crystals = [dict(c, kind="crystal") for c in ctx.cases(out) + ctx.cases(big)]
    rnd = random.Random(ctx.seed)
    cases = list(crystals)
    for c in crystals:      # collections: frames of one composition
        q = c["qy"]
        if q["wide"] != q["rch"] or rnd.random() < 0.4:
            continue
        n = len(q["z"])
        frames, mates, need = [q], [c], c["total"]
        for o in crystals:
            p = o["qy"]
            if o is not c and p["pbc"] == q["pbc"] and len(p["z"]) >= n and p["wide"] >= q["wide"] and len(frames) < 3:
                frames.append(dict(q, cell=p["cell"], pos=p["pos"][:n], z=rnd.sample(q["z"], n)))
                mates.append(o)
        if len(frames) < 3:
            frames.append(dict(q, z=rnd.sample(q["z"], n)))
        tot = max(o["total"] for o in mates)
        if tot > 60:
            continue
        cases.append({"kind": "sys", "frames": frames, "co": c["co"], "no": c["no"], "sel": [tot + rnd.randint(0, 2) for _ in c["no"]], "unit": 4,
                      "reach": [max(o["reach"][k] for o in mates) for k in range(3)],
                      "pick": rnd.sample(range(len(frames)), rnd.randint(1, len(frames)))})
    out = ctx.tlc("EnvStatMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT PrintCase\n", simulate=1500 if th else 150, depth=8)
    cases += [dict(c, kind="stats") for c in ctx.cases(out)]
    ctx.log({k: sum(c["kind"] == k for c in cases) for k in ("crystal", "sys", "stats")})
    ctx.judge("EnvPyTrace", ctx.drive("d_envpy", cases))
