"""Replays k-point sessions: IN.KPT reading, k-path generation, meshes."""
import math, os, random, warnings
import numpy as np
from vf import drv
warnings.filterwarnings("ignore")
from pymatgen.core import Lattice
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.pwmat.input.inkpt import Inkpt
from matersdk.calculation.kpath.kpathSampler import KpathSampler
from matersdk.calculation.kpoints.kmesh import KMesh
from matersdk.calculation.kpoints.kpointsSampler import KPointsSampler
W = os.environ["VF_WORK"]
BOHR = 0.529177249


def atomconfig(path, cell, frac, z=14):
    with open(path, "w") as fh:
        fh.write("  %d atoms\n Lattice vector\n" % len(frac))
        for v in cell:
            fh.write("  %.10f  %.10f  %.10f\n" % tuple(v))
        fh.write(" Position, move_x, move_y, move_z\n")
        for f in frac:
            fh.write("  %d  %.9f  %.9f  %.9f  1 1 1\n" % ((z,) + tuple(f)))


def det(L):
    return abs(L[0][0] * (L[1][1] * L[2][2] - L[1][2] * L[2][1]) - L[0][1] * (L[1][0] * L[2][2] - L[1][2] * L[2][0]) + L[0][2] * (L[1][0] * L[2][1] - L[1][1] * L[2][0]))


def near(x):
    """The integer next to x, if x is one within floating-point noise."""
    x = float(x)
    r = round(x) if math.isfinite(x) and abs(x) < 2e9 else None
    return int(r) if r is not None and abs(x - r) <= 1e-6 * max(1.0, abs(x)) else 999999998


def pt(n, v):
    return {"n": str(n), "c": [drv.fx(t, 10**6) for t in v]}


def run_case(c):
    x = c["x"]
    rnd = random.Random(c["id"])
    ev = []
    ctx = {}
    if x["kind"] == "inkpt":
        p, pa = os.path.join(W, "IN.KPT"), os.path.join(W, "atom.config")
        with open(p, "w") as fh:
            fh.write("  %d\n  2  0\n" % len(x["ks"]))
            for k in x["ks"]:
                fh.write("  %.6f  %.6f  %.6f  %.4f  %s\n" % (tuple(t / x["g"] for t in k["c"]) + (k["w"] / 1e4, k["lab"])))
        atomconfig(pa, x["cell"], [[0, 0, 0]])
        u = det(x["cell"]) * x["g"] / (2 * math.pi)
    elif x["kind"] == "mesh":
        pm = os.path.join(W, "atom.config")
        atomconfig(pm, x["cell"], [[t / 4 for t in f] for f in x["frac4"]])
    else:
        a = x["a"]
        L = [[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, x["c"]]] if x.get("fam") == "HEX" else [[a, 0, 0], [0, x["b"], 0], [0, 0, x["c"]]]
        st = DStructure(Lattice(L), ["Si"], [[0, 0, 0]])

    def obj():
        if "o" not in ctx:
            if x["kind"] == "inkpt":
                ctx["o"] = Inkpt(in_kpt_path=p)
            elif x["kind"] == "path":
                ctx["o"] = KpathSampler(structure=st, dimension=x["dim"])
            elif x["kind"] == "irr":
                ctx["o"] = KPointsSampler(structure=st, kmesh=np.array(x["mesh"]), is_shift=np.array(x["shift"]))
        return ctx["o"]

    def axis(v, unit):
        v = [float(t) for t in v]
        inc = [v[0]] + [b - a for a, b in zip(v, v[1:])]
        return {"reply": [near((d * unit) ** 2) for d in inc], "rising": all(d > -1e-9 for d in inc)}
    for op in c["hist"]:
        def f():
            if op == "mesh":
                return {"reply": [near(t) for t in KMesh(file_format="pwmat", file_path=pm).get_kmesh(1.0 / x["m"] if x["m"] else 0)]}
            o = obj()
            if op == "count":
                return {"reply": int(o.get_num_kpts()), "mode": [drv.q(o.iflag, 1), drv.q(o.a0, 1)]}
            if op == "frac":
                return {"reply": [[near(t * x["g"]) for t in v] for v in o.get_kpt_coords_frac()]}
            if op == "weights":
                return {"reply": [near(t * 1e4) for t in o.get_kpt_weights()]}
            if op == "hsp":
                d = o.get_hsp()
                return {"names": [str(t) for t in d["hsp"]], "reply": [[near(t * x["g"]) for t in v] for v in d["coords_frac"]]}
            if op == "cart":
                return {"reply": [[near(t * u) for t in v] for v in o.get_kpt_coords_A(atom_config_path=pa)]}
            if op == "cartb":
                return {"reply": [[near(t * u / BOHR) for t in v] for v in o.get_kpt_coords_Bohr(atom_config_path=pa)]}
            if op == "axis":
                return axis(o.get_distance_from_gamma_A(atom_config_path=pa), u)
            if op == "axisb":
                return axis(o.get_distance_from_gamma_bohr(atom_config_path=pa), u / BOHR)
            if op == "points":
                return {"reply": [pt(n, v) for n, v in o.kpoints.items()]}
            if op == "paths":
                return {"reply": [[str(t) for t in v] for v in o.kpaths]}
            if op == "highk":
                o.HIGHK_file_path = os.path.join(W, "HIGHK")
                if rnd.random() < .5:
                    open(o.HIGHK_file_path, "w").write("stale\n 1 2 3 Q\n")
                o.output_HIGHK_file()
                rows = [r.split() for r in open(o.HIGHK_file_path).read().splitlines()[1:]]
                return {"reply": [pt(r[3], map(float, r[:3])) for r in rows]}
            if op == "gen":
                o.gen_kpt_path = os.path.join(W, "gen.kpt")
                if rnd.random() < .5:
                    open(o.gen_kpt_path, "w").write("stale\n7.0\n 1 2 3 Q\n 1 1 1 Q\n")
                o.output_gen_kpt(density=1.0 / x["m"])
                rows = [r.split() for r in open(o.gen_kpt_path).read().splitlines()[1:]]
                return {"reply": [{"num": near(float(rows[i][0])), "p": pt(rows[i + 1][3], map(float, rows[i + 1][:3])), "q": pt(rows[i + 2][3], map(float, rows[i + 2][:3]))}
                                  for i in range(0, len(rows), 3)]}
            if op == "irr":
                return {"reply": [int(w) for _, w in o.get_kpoints()]}
            if op == "nirr":
                return {"reply": int(o.get_num_kpoints())}
        v, err = drv.attempt(f)
        ev.append(dict(v or {}, op=op, err=err))
    return {"init": x, "events": ev}


drv.main(run_case)
