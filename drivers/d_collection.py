"""Replays sessions with StructCollection: load, cut, store, count."""
import contextlib, io, os, re, shutil, zlib, json
import numpy as np
from pymatgen.core import Element
from vf import drv, acfmt
from matersdk.io.pwmat.output.movement import Movement
from matersdk.data.struct_collection import StructCollection

W = os.environ["VF_WORK"]


def qs(a, u):
    return [drv.q(x, u, 1e-9) for x in np.asarray(a, dtype=float).reshape(-1)]


def rows(a, u):
    a = np.asarray(a, dtype=float)
    if a.size == 0 or a.ndim == 0:
        return []
    return [qs(x, u) for x in a]


def about(s):
    st = s.structures_lst
    return {"n": int(s.num_structures), "len": len(s), "natoms": int(s.num_atoms), "els": [int(x) for x in s.atomic_numbers_lst],
            "num": [int(s.an2na[x]) for x in s.atomic_numbers_lst],
            "frames": [{"lat": [qs(v, 10**4) for v in t.lattice.matrix], "z": [int(x.specie.Z) for x in t.sites], "f": [qs(v, 10**6) for v in t.frac_coords]} for t in st],
            "force": [qs(t.get_atomic_force(), 10**6) for t in st], "eatom": [qs(t.get_atomic_energy(), 10**4) for t in st],
            "en": [qs(x, 10**4) for x in zip(s.total_energys_array, s.potential_energys_array, s.kinetic_energys_array)],
            "vir": rows(s.virial_tensors_array, 1000)}


def npy(*p):
    p = os.path.join(*p)
    return np.load(p) if os.path.isfile(p) else np.zeros((0,))


def look(d):
    o = {"sets": [], "imgs": [], "tm": [], "ty": [], "other": 0}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if n.startswith("set."):
            o["sets"].append({"name": n, "box": rows(npy(p, "cell.npy"), 10**4), "coord": rows(npy(p, "atom_coord.npy"), 40), "energy": rows(npy(p, "tot_energy.npy"), 10**4),
                              "force": rows(npy(p, "atom_force.npy"), 10**6), "virial": rows(npy(p, "virial.npy"), 1000), "eatom": rows(npy(p, "atom_energy.npy"), 10**4)})
        elif n == "type_map.raw":
            o["tm"] = [Element(t).Z if re.match("[A-Za-z]+$", t) else -1 for t in open(p).read().split()]
        elif n == "type.raw":
            o["ty"] = [int(t) for t in open(p).read().split()]
        elif n.isdigit() and os.path.isdir(p):
            ac = os.path.join(p, "atom.config")
            o["imgs"].append({"name": n, "lines": acfmt.parse(open(ac).read(), lambda x, u: drv.q(x, u, 1e-9)) if os.path.isfile(ac) else [],
                              "box": qs(npy(p, "box.npy"), 10**4), "coord": qs(npy(p, "coord.npy"), 40), "energy": qs(npy(p, "energy.npy"), 10**4),
                              "force": qs(npy(p, "atomic_force.npy"), 10**6), "eatom": qs(npy(p, "atomic_energy.npy"), 10**4), "virial": qs(npy(p, "virial.npy"), 1000),
                              "els": [int(x) for x in npy(p, "atomic_number.npy")],
                              "nz": [[int(x) for x in r] for r in npy(p, "nbrs_atomic_numbers.npy")], "nd2": [[drv.q(x * x, 1600, 1e-9) for x in r] for r in npy(p, "nbrs_distances.npy")],
                              "nxyz": [[qs(x, 40) for x in r] for r in npy(p, "nbrs_coords.npy")]})
        else:
            o["other"] += 1
    return o


def summary(s):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        t = str(s)
    t = b.getvalue() + t
    g = {k.strip(): v.strip() for k, v in re.findall(r"\* (.*?):(.*)", t)}
    els = re.findall(r"- (\w+)\s*:\s*(\d+)", t)
    return {"n": int(g["Images Number"]), "natoms": int(g["Atoms Number"]), "vir": g["Virials Information"] == "True", "els": [Element(a).Z for a, _ in els], "num": [int(b) for _, b in els]}


def run_case(c):
    fr = c["frames"]
    p = os.path.join(W, "MOVEMENT")
    with open(p, "w") as fh:
        fh.write("".join(acfmt.movement(fr, zlib.crc32(json.dumps(c["id"]).encode()), c["opts"]["scf"])))
    for d in (1, 2):
        shutil.rmtree(os.path.join(W, "store%d" % d), ignore_errors=True)
    ev = []
    first, err = drv.attempt(lambda: StructCollection.from_trajectory_s(Movement(movement_path=p)))
    if err:
        return {"init": fr, "events": [{"op": "about", "c": 1, "err": err}]}
    cols = [first]
    for o in c["hist"]:
        e = dict(o, err="")
        op, s = o["op"], cols[o["c"] - 1]

        def f():
            if op in ("slice", "item", "pick"):
                n = s[o["a"]:o["b"]:o["s"]] if op == "slice" else s[o["i"]] if op == "item" else StructCollection.from_indices(s, list(o["ix"]))
                r = {"about": about(n)}
                cols.append(n)
                return r
            if op == "about":
                return {"about": about(s)}
            if op == "show":
                return {"shown": summary(s)}
            d = os.path.join(W, "store%d" % o.get("d", 0), "in")
            if op == "to":
                s.to(dir_path=d, set_size=o["size"])
                return {"dir": look(d)}
            if op == "save":
                s.save_all_info(dir_path=d, scaling_matrix=list(o["scale"]))
                return {"dir": look(d)}
            if op == "nbrs":
                return {"reply": int(s.get_max_num_nbrs_real(rcut=o["rch"] / 80.0, scaling_matrix=o["scale"]))}
            r = s.get_max_num_nbrs_real_element(rcut=o["rch"] / 80.0, nbr_elements=[Element.from_Z(z).symbol for z in o["els"]], scaling_matrix=o["scale"])
            return {"reply": [int(r[Element.from_Z(z).symbol]) for z in o["els"]]}
        r, e["err"] = drv.attempt(f)
        e.update(r or {})
        ev.append(e)
        n = {"slice": lambda: len(range(*slice(o["a"], o["b"], o["s"]).indices(len(s)))) == 0,
             "item": lambda: not -len(s) <= o["i"] < len(s), "pick": lambda: any(not -len(s) <= i < len(s) for i in o["ix"])}.get(op, lambda: False)()
        if op in ("slice", "item", "pick") and n and not e["err"]:
            cols.pop()
        if e["err"] and not n:
            break
    return {"init": fr, "events": ev}


drv.main(run_case)
