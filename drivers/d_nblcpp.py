"""Replays structure, supercell and neighbour-list queries through the C++ classes (harness/nbl.cc, ASan build)."""
import json, os, subprocess
from vf import drv
from vf.plain import plain

EXE = os.path.join(os.environ["VF_DIR"], "bin", "nbl")
P = None


def ask(line):
    global P
    if P is None:
        P = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    P.stdin.write(line + "\n")
    P.stdin.flush()
    r = P.stdout.readline()
    if not r.endswith("\n"):
        P.stdin.close()
        err = P.stderr.read()
        raise SystemExit("harness ended: " + err[:1500])
    return json.loads(r)


def struct_txt(c, g, K, cart):
    n = len(c["pos"])
    lat = [repr(x / g) for v in c["cell"] for x in v]
    xyz = [repr(x / g) for v in c["pos"] for x in v] if cart else [repr(x / K) for v in c["frac"] for x in v]
    return " ".join([str(n), "1" if cart else "0"] + lat + [str(z) for z in c["z"]] + xyz)


def run_case(c):
    given, K, M = c["qy"], c["K"], c["M"]
    qy, g = plain(given), K * M * given.get("fz", 1)
    if c["op"] == "super":
        r = ask("super %d %d %d %d %s" % (c["ptrs"], *c["scale"], struct_txt(qy, g, K, qy["cart"])))

        def st(s):
            return {"n": s["n"], "basis": [[drv.q(x, g) for x in v] for v in s["basis"]], "z": s["z"],
                    "xyz": [[drv.q(x, g) for x in v] for v in s["xyz"]], "origin": [drv.q(x, g) for x in s["origin"]],
                    "projected": [drv.q(x, g) for x in s["projected"]], "planes": [drv.fx(x, 100 * M) for x in s["planes"]],
                    "lim": [[drv.q(x, g) for x in v] for v in s["lim"]]}
        e = {"op": "super", "qy": qy, "M": M, "K": K, "scale": c["scale"], "prim": st(r["prim"]), "same": st(r["same"]), "sup": st(r["super"]),
             "np": r["np"], "ns": r["ns"], "cell": r["cell"], "cellxyz": r["cellxyz"], "owned": r["owned"]}
    else:
        bins = c.get("bins")
        b = [x / (8.0 * g) * qy["rch"] / 2.0 for x in bins] if bins else [1, 1, 1]
        umax = c["umax"]
        r = ask("nl %r %d %d %d %d %d %r %r %r %d %s" % (qy["rch"] / (2.0 * g), *map(int, qy["pbc"]), int(qy["sort"]),
                1 if bins else 0, *b, umax, struct_txt(qy, g, K, qy["cart"])))
        f = r["flat"]
        n = r["n"]
        e = {"op": "nl", "qy": dict(given, umax=umax), "n": n,
             "numneigh": [len(row) for row in r["rows"]],
             "firstneigh": [[x[0] for x in row] for row in r["rows"]],
             "nz": [[x[1] for x in row] for row in r["rows"]],
             "rel": [[[drv.q(v, g) for v in x[2:]] for x in row] for row in r["rows"]],
             "max": r["max"], "pairs": r["pairs"],
             "flat": {"inum": f["inum"], "ilist": f["ilist"], "numneigh": f["numneigh"], "types": f["types"],
                      "firstneigh": [f["firstneigh"][i*umax:(i+1)*umax] for i in range(n)],
                      "rel": [[[drv.q(f["rel"][(i*umax+k)*3+a], g) for a in range(3)] for k in range(umax)] for i in range(n)]}}
    return {"events": [e]}


drv.main(run_case)
