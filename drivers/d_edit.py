"""Replays editing sessions through DStructure."""
import numpy as np
from pymatgen.core.periodic_table import DummySpecies
from vf import drv
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.pwmat.utils.parameters import atomic_number2specie


def sp(z):
    return DummySpecies("X") if z == 0 else atomic_number2specie[z]


def run_case(c):
    K = c["K"]
    g = K
    st = c["sites"]
    props = {"magmom": [x["m"] / 100.0 for x in st]} if c["magmom"] else None
    cur = DStructure(np.array(c["cell"]) / g, [sp(x["z"]) for x in st], np.array([x["f"] for x in st], float) / K, site_properties=props)

    def show(s):
        m = s.site_properties.get("magmom") if c["magmom"] else None
        return [{"z": 0 if isinstance(x.specie, DummySpecies) else int(x.specie.Z), "f": [drv.q(v, K) for v in x.frac_coords], "m": drv.q(m[i], 100) if m is not None else 0}
                for i, x in enumerate(s.sites)]
    ev = []
    for o in c["hist"]:
        e = dict(o, err="")
        old = cur

        def f():
            nonlocal cur
            op = o["op"]
            if op == "sort":
                cur.reformat_elements_()
            elif op == "vac":
                cur.remove_vacanies()
            elif op == "pick":
                cur = cur.reformat_elements([atomic_number2specie[z] for z in o["order"]])
                return show(old)
            elif op == "natoms":
                r = cur.get_natoms(o["order"]) if o["order"] else cur.get_natoms()
                return [int(x) for x in r]
            elif op == "index":
                xyz = np.array(o["f"], float) / K @ cur.lattice.matrix
                return int(cur.get_site_index(xyz))
            elif op == "centroid":
                return [drv.q(x * len(cur.sites), g) for x in cur.get_centroid()]
            elif op == "vacuum":
                return [int(bool(x)) for x in cur.judge_vacuum_exist()]
        r, err = drv.attempt(f)
        e["err"] = err
        if o["op"] == "pick":
            e["old"] = r if r is not None else []
        elif r is not None:
            e["reply"] = r
        sh, err2 = drv.attempt(lambda: show(cur))
        e["obs"] = sh if sh is not None else []
        e["err"] = e["err"] or err2
        ev.append(e)
        if e["err"]:
            break
    return {"init": {"sites": st, "magmom": c["magmom"], "K": K, "cell": c["cell"], "g": g}, "events": ev}


drv.main(run_case)
