"""Replays sessions on projected DOS and fat-band tables."""
import gc, os, random, re
from vf import drv
from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
W = os.environ["VF_WORK"]
BOHR = 0.529177249
HEAD = {"energy": (0, 1.0), "total": (1, 1.0), "KPOINT": (0, BOHR), "ENERGY": (1, 1.0), "weight_tot": (2, 1.0)}


def dosfile(t, rnd):
    hd = ["Energy", rnd.choice(["Total", "total"])] + ["%s-%s" % (c["el"], c["orb"]) for c in t["cols"]]
    if rnd.random() < .6:
        hd = ["#"] + hd
    L = ["  " + "      ".join(hd)]
    for r in t["rows"]:
        L.append(" %.4f  %.4f" % (r["x"][0] / 1e4, r["x"][1] / 1e4) + "".join("   %.4f" % (w / 1e4) for w in r["w"]))
    return "\n".join(L) + "\n"


def fatfile(t, rnd):
    L = ["  ".join(["KPOINT", "ENERGY", "weight_tot"] + ["%s-%s" % (c["el"], c["orb"]) for c in t["cols"]])]
    nk = len(t["rows"]) // t["nb"]
    for b in range(t["nb"]):
        L.append(" BAND   %d" % (b + 1))
        for r in t["rows"][b * nk:(b + 1) * nk]:
            L.append(" %.4f  %.4f  %.4f" % tuple(x / 1e4 for x in r["x"]) + "".join("   %.4f" % (w / 1e4) for w in r["w"]))
        L.append("")
    return "\n".join(L) + "\n"


def frame(df, kind, els):
    cols = list(df.columns)
    head, rest, names, cs = [], [], [], []
    for j, c in enumerate(cols):
        key = {"Energy": "energy", "Total": "total", "total": "total"}.get(c) if kind == "dos" else (c if c in HEAD else None)
        if key:
            head.append((j, HEAD[key][1]))
        else:
            rest.append(j)
            c = re.sub(r"\.\d+$", "", c)
            names.append(c)
            el, _, orb = c.partition("-")
            cs.append({"el": el, "orb": orb})
    v = df.values
    q = lambda x: drv.q(x, 10**4, 1e-8)
    return {"head": [[q(row[j] * u) for j, u in head] for row in v], "names": names, "cols": cs, "w": [[q(row[j]) for j in rest] for row in v]}


def run_case(c):
    rnd = random.Random(c["id"])
    kind = c["kind"]
    paths = []
    for i, t in enumerate(c["tabs"]):
        p = os.path.join(W, "DOS.totalspin_%d" % i if kind == "dos" else "fat_%d.txt" % i)
        with open(p, "w") as fh:
            fh.write(dosfile(t, rnd) if kind == "dos" else fatfile(t, rnd))
        paths.append(p)
    objs, ev = {}, []
    for o in c["hist"]:
        def f():
            op, s = o["op"], o["slot"]
            if op == "open":
                p = paths[o["tab"] - 1]
                objs[s] = Dostotalspin(dos_totalspin_path=p) if kind == "dos" else FatbandStructure(fatbandstructure_txt_path=p)
                return {}
            if op == "close":
                del objs[s]
                gc.collect()
                return {}
            x = objs[s]
            if op == "shape":
                return {"nb": int(x.num_bands), "nk": int(x.num_kpoints), "els": [str(e) for e in x.elements_lst]}
            if kind == "dos":
                d = {"tdos": x.get_tdos, "elements": x.get_pdos_elements, "orbitals": x.get_pdos_orbitals}[op]()
                return {"frames": [frame(d, kind, op)]}
            if op == "total":
                r = x.get_total_dfs_lst()
            elif op == "elements":
                r = x.get_element_dfs_lst()
            else:
                cc = c["tabs"][o["tab"] - 1]["cols"][o["col"] - 1]
                n = "%s-%s" % (cc["el"], cc["orb"])
                r = x.get_orbital_dfs_lst(orbital_name=[n, n.lower(), n.upper()][o["case"]])
            return {"frames": [frame(d, kind, op) for d in r]}
        v, err = drv.attempt(f)
        ev.append(dict(o, err=err, **(v or {})))
        if err and o["op"] == "open":
            break
    return {"init": {"kind": kind, "tabs": c["tabs"]}, "events": ev}


drv.main(run_case)
