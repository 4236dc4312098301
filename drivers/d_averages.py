"""Replays requests for averages over a trajectory."""
import os, zlib, json, math
from collections import Counter
import numpy as np
from pymatgen.core import Element
from vf import drv, acfmt
from matersdk.io.pwmat.output.movement import Movement
from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
from matersdk.feature.avg.msd import Msd, DiffractionIntensity
from matersdk.feature.avg.avgbond import AvgBond, PairBond
from matersdk.feature.avg.avgangle import AvgAngle

W = os.environ["VF_WORK"]


def bag(rows):
    c, info = Counter(), {}
    for th, s, l in np.asarray(rows, float).reshape(-1, 3):
        k = (drv.q(s * s, 1600, 1e-9), drv.q(l * l, 1600, 1e-9), drv.q(math.cos(math.radians(th)) * s * l, 1600, 1e-6))
        c[k] += 1
        info[k] = (th, math.cos(math.radians(th)))
    return [{"s": k[0], "l": k[1], "dot": k[2], "n": n, "th": drv.fx(info[k][0], 1000), "co": drv.fx(info[k][1], 1000)} for k, n in sorted(c.items())]


def run_case(c):
    fr = c["frames"]
    n = fr[0]["lines"][0]["n"]
    p = os.path.join(W, "MOVEMENT")
    with open(p, "w") as fh:
        fh.write("".join(acfmt.movement(fr, zlib.crc32(json.dumps(c["id"]).encode()), c["opts"]["scf"])))
    ev = []
    for o in c["hist"]:
        e = dict(o, err="")
        op = o["op"]

        def f():
            sym = lambda z: Element.from_Z(z).symbol
            if op == "msd":
                m = Movement(movement_path=p)
                q = o["q"] / 10.0
                return {"reply": [drv.q(x * n, 1600, 1e-9) for x in Msd(trajectory=m).calc_msd()],
                        "di": [drv.fx(-3 * math.log(x) / q**2 * n, 1600) if x > 0 else 999999999 for x in DiffractionIntensity(trajectory=m, q=q).calc_di()]}
            if op == "msdc":
                return {"reply": [drv.q(x * n * n, 1600, 1e-9) for x in Msd(trajectory=Movement(movement_path=p)).calc_msd_sub_centroid()]}
            if op == "pair":
                return {"reply": [drv.q(x * x, 1600, 1e-9) for x in PairBond(p, o["i"] - 1, o["j"] - 1).get_frames_pair_bond()]}
            if op == "bond":
                r = AvgBond(movement_path=p, element_1=sym(o["z1"]), element_2=sym(o["z2"]), rcut=o["rch"] / 80.0).get_frames_avg_bond(scaling_matrix=list(o["scale"]))
                return {"reply": [drv.fx(x, 4000) for x in r]}
            g = StructureNeighborsDescriptor.create("v1", structure=Movement(movement_path=p).get_frame_structure(o["k"] - 1), rcut=o["rch"] / 80.0, scaling_matrix=list(o["scale"]))
            a = dict(struct_neigh=g, atomic_number_1=o["z1"], atomic_number_2=o["z2"], atomic_number_3=o["z3"])
            rows = AvgBond.get_bond_lengths_lst_according2angle(angle_standard=90, angle_epsilon=91, **a)
            some = AvgBond.get_bond_lengths_lst_according2angle(angle_standard=o["std"], angle_epsilon=o["eps"], **a)
            if not len(rows):
                return {"rows": [], "some": [], "mean": 0, "order": 0}
            mean, order = AvgAngle.get_avg_bond(**a)
            return {"rows": bag(rows), "some": bag(some), "mean": drv.fx(mean, 100), "order": drv.fx(order, 10000)}
        r, e["err"] = drv.attempt(f)
        e.update(r or {})
        ev.append(e)
    return {"init": fr, "events": ev}


drv.main(run_case)
