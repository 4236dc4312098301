"""Replays structures through the Python structure layer (DStructure, StructureNeighborsV1, StructureNeighborsUtils, AdjacentMatrix)."""
import numpy as np
from vf import drv
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.publicLayer.neigh import StructureNeighborsV1, StructureNeighborsDescriptor, StructureNeighborsUtils
from matersdk.io.pwmat.utils.parameters import atomic_number2specie
from matersdk.feature.graph.edge import AdjacentMatrix


def make(c):
    g = c["K"] * c["M"]
    st = c["st"]
    sp = [atomic_number2specie[z] for z in st["z"]]
    if c.get("cart"):
        return DStructure(np.array(st["cell"]) / g, sp, np.array(st["pos"], float) / g, coords_are_cartesian=True)
    return DStructure(np.array(st["cell"]) / g, sp, np.array(c["frac"], float) / c["K"])


def grid(a, g):
    a = np.asarray(a, float)
    return [[drv.q(x, g) for x in v] for v in a]


def zs(a):
    return [int(x) for x in a]


def run_case(c):
    g, s = c["K"] * c["M"], make(c)
    rcut = c["rch"] / (2.0 * g)
    ev = []
    for op in c["ops"]:
        e = {"op": op, "scale": c["scale"], "rch": c["rch"], "err": ""}
        if op == "super":
            for srt in (True, False):
                def f():
                    sc = s.make_supercell_(scaling_matrix=c["scale"], reformat_mark=srt)
                    return {"lattice": grid(sc.lattice.matrix, g), "z": zs([x.specie.Z for x in sc.sites]),
                            "xyz": grid(sc.cart_coords, g), "key": zs(s.get_key_idxs(scaling_matrix=c["scale"]))}
                r, err = drv.attempt(f)
                ev.append(dict(e, sorted=srt, err=err, **(r or {})))
            continue
        if op == "nbr":
            def f():
                sn = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rcut, scaling_matrix=c["scale"])
                return {"z": [zs(x) for x in sn.key_nbr_atomic_numbers], "xyz": [grid(x, g) for x in sn.key_nbr_coords],
                        "d2": [[drv.q(d * d, g * g) for d in x] for x in sn.key_nbr_distances]}
        elif op == "count":
            els = sorted(set(c["st"]["z"])) + [9]

            def f():
                names = [atomic_number2specie[z] for z in els]
                m = StructureNeighborsUtils.get_max_num_nbrs_real(structure=s, rcut=rcut, scaling_matrix=c["scale"])
                d = StructureNeighborsUtils.get_max_num_nbrs_real_element(structure=s, rcut=rcut, nbr_elements=names, scaling_matrix=c["scale"])
                return {"max": int(m), "els": els, "elmax": [int(d[x]) for x in names]}
        elif op == "idx":
            def f():
                sn = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rcut, scaling_matrix=c["scale"])
                rows = StructureNeighborsUtils.get_nbrs_indices(struct_nbr=sn, center_atomic_numbers=c["cz"], nbr_atomic_numbers=c["nz"],
                                                                max_num_nbrs=c["nmax"])
                return {"cz": c["cz"], "nz": c["nz"], "nmax": c["nmax"], "rows": [zs(x) for x in rows]}
        elif op == "adj":
            e["even"] = any(x % 2 == 0 for x in c["adjscale"])
            e["scale"] = c["adjscale"]

            def f():
                a = AdjacentMatrix(structure=s, rcut=rcut, scaling_matrix=c["adjscale"]).get_adjacent_matrix()
                return {"a": [zs(x) for x in a]}
        r, err = drv.attempt(f)
        ev.append(dict(e, err=err, **(r or {})))
    return {"init": c["st"], "events": ev}


drv.main(run_case)
