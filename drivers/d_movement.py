"""Replays trajectory sessions through MVExtractor and Movement."""
import os, sys, zlib, json
import numpy as np
from vf import drv, acfmt
from matersdk.io.pwmat.utils.mvextractor import MVExtractor
from matersdk.io.pwmat.output.movement import Movement

W = os.environ["VF_WORK"]
UNIT = {"box": 10**4, "coords": 10**6, "etot": 10**4, "fatoms": 10**6, "virial": 10**3, "eatoms": 10**4, "magmoms": 100}


def qq(x, u):
    return drv.q(x, u, 3e-3 / u if abs(float(x)) * u > 1e7 else 1e-9)


def flat(a, lab):
    a = np.asarray(a)
    return [int(x) for x in a.reshape(-1)] if lab == "types" else [drv.q(x, UNIT[lab], 1e-9) for x in a.reshape(-1)]


def show(s):
    return {"lat": [[drv.q(x, 10**4, 1e-8) for x in v] for v in s.lattice.matrix], "z": [int(x.specie.Z) for x in s.sites],
            "f": [[drv.q(x, 10**6, 1e-8) for x in v] for v in s.frac_coords]}


def en(x):
    return drv.q(x, 10**4, 1e-9)


def mat(a):
    return [[drv.q(x, 1000, 1e-9) for x in v] for v in np.asarray(a, float).reshape(3, 3)]


def run_case(c):
    fr = c["frames"]
    texts = acfmt.movement(fr, zlib.crc32(json.dumps(c["id"]).encode()), c["opts"]["scf"], c.get("old", False))
    p = os.path.join(W, "MOVEMENT")
    with open(p, "w") as fh:
        fh.write("".join(texts))
    ev = []
    objs = {}

    def mv():
        if "mv" not in objs:
            objs["mv"] = MVExtractor(movement_path=p)
        return objs["mv"]

    def mo():
        if "mo" not in objs:
            objs["mo"] = Movement(movement_path=p)
        return objs["mo"]
    for o in c["hist"]:
        e = dict(o, err="")
        op, k = o["op"], o["k"] - 1

        def f():
            if op == "labels":
                return {"reply": [str(x) for x in mv().get_info_labels()]}
            if op == "count":
                return {"reply": int(mv().get_num_frames())}
            if op in ("all", "frame"):
                labs = mv().get_info_labels()
                if op == "frame":
                    return {"reply": [flat(a, l) for a, l in zip(mv().get_frame_info(k), labs)]}
                r = mv().get_frames_info()
                return {"reply": [[flat(x, l) for x in a] for a, l in zip(r, labs)] + [[] for _ in range(len(r) - len(labs))]}
            if op == "str":
                t = mv().get_frame_str(k)
                return {"reply": [i + 1 for i, x in enumerate(texts) if x == t]}
            if op == "m_all":
                return {"reply": [show(s) for s in mo().get_all_frame_structures()]}
            if op == "m_info":
                st, a, b, d, v = mo().get_all_frame_structures_info()
                return {"reply": [show(s) for s in st], "en": [[en(x), en(y), en(z)] for x, y, z in zip(a, b, d)], "vir": [mat(x) for x in v]}
            if op == "m_frame":
                return {"reply": show(mo().get_frame_structure(k))}
            if op == "m_energy":
                return {"reply": [en(x) for x in mo().get_frame_energy(k)]}
            if op == "m_virial":
                return {"reply": mat(mo().get_frame_virial(k))}
            if op == "m_volume":
                return {"reply": drv.q(mo().get_frame_volume(k), 1000, 1e-9)}
            if op == "m_nbrs":
                return {"reply": int(mo().get_max_num_nbrs_real(rcut=o["rch"] / 80.0, scaling_matrix=o["scale"]))}
        r, e["err"] = drv.attempt(f)
        e.update(r or {})
        ev.append(e)
        if e["err"]:
            break
    return {"init": fr, "events": ev}


drv.main(run_case)
