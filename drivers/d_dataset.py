"""Replays trajectory-to-training-data sessions through InfoSet and InfoSets."""
import os, re, shutil, zlib, json, tempfile
import numpy as np
from vf import drv, acfmt
from matersdk.data.infoset import InfoSet
from matersdk.data.infosets import InfoSets
from pymatgen.core.periodic_table import Element

W = os.environ["VF_WORK"]
UNIT = {"box": 10**4, "coords": 10**6, "etot": 10**4, "fatoms": 10**6, "virial": 10**3, "eatoms": 10**4, "magmoms": 100}
ATTR = [("box", "box"), ("types", "types"), ("coords", "coord"), ("etot", "etot"), ("fatoms", "fatom"), ("virial", "virial"), ("eatoms", "eatom"), ("magmoms", "magmom")]
FILES = dict(ATTR, magmoms="magmoms")


def frames(a, lab):
    return [[int(x) if lab == "types" else drv.q(x, UNIT[lab], 1e-9) for x in np.asarray(v).reshape(-1)] for v in np.asarray(a)]


def z(sym):
    return Element(sym).Z


def show(s):
    labs = [l for l, a in ATTR if getattr(s, a) is not False]
    return {"labs": labs, "data": {l: frames(getattr(s, a), l) for l, a in ATTR if l in labs}, "n": int(s.num_frames),
            "comp": [[z(k), int(v)] for k, v in s.formula_dict.items()],
            "formula": [[z(k), int(v)] for k, v in re.findall(r"([A-Z][a-z]?)(\d+)", s.formula)]}


def parts(d):
    res = []
    for p in sorted(x for x in os.listdir(d) if x.startswith("part.")):
        q = os.path.join(d, p)
        labs = [l for l, _ in ATTR if os.path.exists(os.path.join(q, FILES[l] + ".npy"))]
        res.append({"rank": int(p.split(".")[1]), "labs": labs, "data": {l: frames(np.load(os.path.join(q, FILES[l] + ".npy")), l) for l in labs}})
    return res


def tmap(d):
    return [z(x) for x in open(os.path.join(d, "type_map.raw")).read().split()]


def digest(d):
    return sorted((os.path.relpath(os.path.join(r, f), d), open(os.path.join(r, f), "rb").read().hex()) for r, _, fs in os.walk(d) for f in fs)


def run_case(c):
    root = tempfile.mkdtemp(dir=W)
    seed = zlib.crc32(json.dumps(c["id"]).encode())
    where = ["", "run", os.path.join("deep", "er")]
    names = ["MOVEMENT", "movement", "Movement"]
    src = os.path.join(root, "src")
    ps = False if c["ps"] == 0 else c["ps"]
    out = os.path.join(root, "out")
    os.makedirs(out)
    first = None
    for i, fr in enumerate(c["files"]):
        d = os.path.join(src, where[c["where"][i]], "f%d" % i)
        os.makedirs(d)
        p = os.path.join(d, names[(seed + i) % 3])
        first = first or p
        open(p, "w").write("".join(acfmt.movement(fr, seed + i)))
        open(os.path.join(d, "MOVEMENT.bak"), "w").write("not a trajectory\n")
    ev = []
    st = {"files": c["files"], "ps": c["ps"], "els": c["els"]}

    def add(op, f):
        r, err = drv.attempt(f)
        ev.append(dict({"op": op, "err": err}, **(r or {})))
        return not err

    obj = {}
    if c["kind"] == "one":
        def load():
            obj["s"] = InfoSet.from_file(file_path=first, file_format="PWmat/MOVEMENT", **({"infosets_atomic_numbers": list(c["els"])} if c["els"] else {}))
            return show(obj["s"])

        def save():
            obj["s"].to_dir(dir_path=out, part_size=ps)
            ds = os.listdir(out)
            return {"dirs": len(ds), "parts": parts(os.path.join(out, obj["s"].formula)), "map": tmap(os.path.join(out, obj["s"].formula))}
    else:
        def load():
            obj["s"] = InfoSets.from_dir(dir_path=src, file_name="MOVEMENT", file_format="PWmat/MOVEMENT")
            obj["r"] = {"sets": [show(x) for x in obj["s"].infoset_lst], "total": int(obj["s"].get_num_frames())}
            obj["r"]["els"] = [x[0] for x in obj["r"]["sets"][0]["comp"]]
            return obj["r"]

        def save():
            obj["s"].to_dir(dir_path=out, part_size=ps)
            ds = os.listdir(out)
            fs = [x.formula for x in obj["s"].infoset_lst]
            return dict(obj["r"], dirs=len(ds), parts=[parts(os.path.join(out, f)) for f in fs], maps=[tmap(os.path.join(out, f)) for f in fs])
    pre = "" if c["kind"] == "one" else "merge"
    if add("load" if not pre else "merge", load) and add(pre + "save", save):
        before = digest(out)
        _, err = drv.attempt(lambda: obj["s"].to_dir(dir_path=out, part_size=1))
        ev.append({"op": "again", "err": err, "same": digest(out) == before})
    shutil.rmtree(root)
    return {"init": st, "events": ev}


drv.main(run_case)
