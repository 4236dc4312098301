"""Replays sessions of perturbing structures."""
import os, shutil, zlib, json
import numpy as np
from pymatgen.core import Element
from vf import drv, acfmt
from matersdk.io.publicLayer.structure import DStructure
from matersdk.adalearn.generator.perturbation import PerturbStructure, BatchPerturbStructure

W = os.environ["VF_WORK"]


def deform(L, L2):
    """E, Q with L2 = L E Q, E symmetric positive, Q orthogonal."""
    A = np.linalg.solve(L, L2)
    u, s, vt = np.linalg.svd(A)
    return u @ np.diag(s) @ u.T, u @ vt


def copy(L, F, lat, z, fr, d):
    E, Q = deform(L, lat)
    u = (fr - F) @ lat
    return {"z": z, "lat": [[drv.fx(x, 10**6) for x in v] for v in lat], "e": [[drv.fx(x, 10**6) for x in v] for v in E],
            "odd": drv.fx(max(abs(np.linalg.det(Q) - 1), np.abs(L @ E @ Q - lat).max()), 10**6), "u": [[drv.fx(x, 10**6 if d == 0 else 1000 / d) for x in v] for v in u]}


def structure(s):
    return DStructure(np.array(s["lat"]) / 10.0, [Element.from_Z(z) for z in s["z"]], np.array(s["f"]) / 24.0)


def state(t):
    return (t.lattice.matrix.tolist(), t.frac_coords.tolist(), [x.specie.Z for x in t.sites])


def many(s):
    t = structure(s)
    L, F = np.array(s["lat"]) / 10.0, np.array(s["f"]) / 24.0
    di, of, us, six = [], [], [], []
    f, d = 0.1, 0.05
    for t2 in PerturbStructure(t).perturb(pert_num=1000, cell_pert_fraction=f, atom_pert_distance=d):
        E, Q = deform(L, t2.lattice.matrix)
        di += [(E[i][i] - 1) / f for i in range(3)]
        of += [E[i][j] / (f / 2) for i, j in ((0, 1), (0, 2), (1, 2))]
        six.append(di[-3:] + of[-3:])
        us += (((t2.frac_coords - F) @ t2.lattice.matrix) @ Q.T / d).tolist()
    h = lambda a: [int(x) for x in np.histogram(a, bins=10, range=(-1, 1))[0]]
    us = np.array(us)
    return {"op": "many", "err": "", "total": 3000, "bins": h(di), "obins": h(of), "ms": drv.fx((us ** 2).sum(1).mean(), 1000), "mean": [drv.fx(x, 1000) for x in us.mean(0)],
            "var": [drv.fx(x, 1000) for x in us.var(0)], "corr": [drv.fx(x, 1000) for a in (np.array(six).T, us.T) for x in np.corrcoef(a)[np.triu_indices(len(a), 1)]]}


def run_case(c):
    sts = c["st"]
    np.random.seed(zlib.crc32(json.dumps(c["id"]).encode()) % 2**31)
    if c.get("many"):
        r, err = drv.attempt(lambda: many(sts[0]))
        return {"init": sts, "events": [r or {"op": "perturb", "k": 1, "n": 1, "f": 0, "d": 0, "err": err}]}
    top = os.path.join(W, "systems")
    shutil.rmtree(top, ignore_errors=True)
    Ls, Fs, ts, ps, texts, dirs = [], [], [], [], [], []
    for k, s in enumerate(sts):
        L, F = np.array(s["lat"]) / 10.0, np.array(s["f"]) / 24.0
        d = os.path.join(top, "s%d" % k)
        os.makedirs(d)
        with open(os.path.join(d, "atom.config"), "w") as fh:      # positions in 1/24 are not exact in six decimals: more digits here
            fh.write("  %d atoms\nLattice vector (Angstrom)\n" % len(s["z"]) + "".join("  %.10f %.10f %.10f\n" % tuple(v) for v in L)
                     + "Position (normalized), move_x, move_y, move_z\n" + "".join("  %d  %.12f %.12f %.12f  1 1 1\n" % ((z,) + tuple(f)) for z, f in zip(s["z"], F)))
        texts.append(open(os.path.join(d, "atom.config")).read())
        t = structure(s)
        for a, x in ((Ls, L), (Fs, F), (ts, t), (ps, PerturbStructure(t)), (dirs, d)):
            a.append(x)
    ev = []
    for o in c["hist"]:
        f = o["f"] / 1e6 if o["f"] >= 0 else -0.1
        dist = o["d"] / 100.0 if o["d"] >= 0 else -0.1
        of = [k - 1 for k in o["of"]]

        def one():
            k = of[0]
            before = state(ts[k])
            r = ps[k].perturb(pert_num=o["n"], cell_pert_fraction=f, atom_pert_distance=dist)
            return [{"copies": [copy(Ls[k], Fs[k], x.lattice.matrix, [int(y.specie.Z) for y in x.sites], x.frac_coords, dist) for x in r], "same": before == state(ts[k])}]

        def batch():
            BatchPerturbStructure.batch_perturb([dirs[k] for k in of], pert_num=o["n"], cell_pert_fraction=f, atom_pert_distance=dist)
            out = []
            for k in of:
                cs = []
                for m in range(o["n"]):
                    ls = acfmt.parse(open(os.path.join(dirs[k], "structures", "%d.config" % m)).read(), lambda x, u: float(x))
                    rows = lambda sec: [l for l in ls[[i for i, l in enumerate(ls) if l.get("sec") == sec][0] + 1:] if l["k"] == "row"]
                    lat = np.array([l["v"] for l in rows("lattice")[:3]])
                    at = rows("position")
                    cs.append(copy(Ls[k], Fs[k], lat, [l["z"] for l in at], np.array([l["v"] for l in at]), dist))
                out.append({"copies": cs, "same": open(os.path.join(dirs[k], "atom.config")).read() == texts[k], "listed": len(os.listdir(os.path.join(dirs[k], "structures")))})
            return out
        r, err = drv.attempt(one if o["op"] == "perturb" else batch)
        for j, k in enumerate(of):
            ev.append(dict({"op": o["op"], "n": o["n"], "f": o["f"], "d": o["d"], "k": k + 1, "err": err}, **(r[j] if r else {})))
    return {"init": sts, "events": ev}


drv.main(run_case)
