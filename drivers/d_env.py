"""Replays neighbour tables and crystals through the compiled environment matrices: classes (harness/env.cc) and torch operators."""
import json, os, subprocess
from vf import drv, fine

EXE = os.path.join(os.environ["VF_DIR"], "bin", "env")
P = None
OPS = None


def ask(line):
    global P
    if P is None:
        P = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    P.stdin.write(line + "\n")
    P.stdin.flush()
    while True:
        r = P.stdout.readline()
        if not r.endswith("\n"):
            P.stdin.close()
            err = P.stderr.read()
            P = None
            raise RuntimeError("harness ended: " + err[:800])
        if r.startswith("VF "):
            return json.loads(r[3:])


def ops():
    global OPS
    if OPS is None:
        import torch
        torch.set_num_threads(1)
        torch.ops.load_library(os.path.join(os.environ["VF_DIR"], "ops", "ops.so"))
        OPS = torch
    return OPS


def grid(flat, rows, cols, g):
    """Flat value array as rows x cols x 4 fixed-point numbers of the dimensionless rows r*g."""
    f = [drv.fx(x * g, 32768) for x in flat]
    return [[f[(i * cols + j) * 4:(i * cols + j) * 4 + 4] for j in range(cols)] for i in range(rows)]


def slopes(flat, rows, cols, g):
    f = [drv.fx(x * g * g, 32768) for x in flat]
    return [[[f[((i * cols + j) * 4 + k) * 3:((i * cols + j) * 4 + k) * 3 + 3] for k in range(4)] for j in range(cols)] for i in range(rows)]


def vecs(flat, rows, cols, g):
    f = [drv.q(x / g, 1) for x in flat]
    return [[f[(i * cols + j) * 3:(i * cols + j) * 3 + 3] for j in range(cols)] for i in range(rows)]


def event(what, q, sel, no, sign, grouped=False, co=(), err="", r=(), d=None, v=None, p=None, raw=None):
    return {"op": "table", "what": what, "q": q, "err": err, "sel": list(sel), "no": list(no), "co": list(co), "grouped": grouped, "sign": sign,
            "r": list(r), "d": d or [], "v": v or [], "p": p or [], "hasd": d is not None, "hasv": v is not None, "hasp": p is not None,
            "fine": fine.worst(*raw, sign) if raw else 0}


def class_events(q, sel, g, co, no):
    nt, n, nc, w = len(sel), len(q["x"]), len(q["centres"]), sum(sel)
    zs = [8, 1, 42][:nt]
    line = "tab %d %d %d %r %r %r " % (n, nc, nt, g, q["rsh"] / 2 * g, q["rch"] / 2 * g)
    line += " ".join(repr(c * g) for p in q["x"] for c in p) + " " + " ".join(map(str, q["t"] + q["centres"]))
    for l in q["nb"]:
        line += " " + " ".join(map(str, [len(l)] + l))
    line += " " + " ".join(map(str, list(sel) + [len(co)] + co + [len(no)] + no + zs))
    res, err = drv.attempt(lambda: ask(line))
    evs = []
    same = list(range(nt))
    rows = sum(1 for c in co for i in q["centres"] if q["t"][i] == c)
    cols = sum(sel[k] for k in no)
    prow = sum(1 for i in q["centres"] if q["t"][i] == co[0])
    G = (g, q["rsh"] / 2 * g, q["rch"] / 2 * g)
    for prec in ("f64", "f32"):
        raw = (lambda a: (a["r"], a["d"]) + G) if prec == "f64" else (lambda a: None)
        o = res[prec] if res else {}
        if err:
            evs.append(event("class " + prec, q, sel, same, 1, err=err))
            continue
        a = o["env"]
        evs.append(event("EnvMatrix " + prec, q, sel, same, 1, r=grid(a["r"], nc, w, g), d=slopes(a["d"], nc, w, g), raw=raw(a)))
        a = o["se4"]
        evs.append(event("Se4pw " + prec, q, sel, same, -1, r=grid(a["r"], nc, w, g), d=slopes(a["d"], nc, w, g), v=vecs(a["v"], nc, w, g),
                         p=[[int(x) for x in a["p"][i * w:(i + 1) * w]] for i in range(nc)], raw=raw(a)))
        for k in ("tr", "tr2"):
            a = o[k]
            evs.append(event("TildeR %s %s" % (k, prec), q, [sel[t] for t in no], no, -1, True, co, r=grid(a["r"], rows, cols, g), d=slopes(a["d"], rows, cols, g), raw=raw(a)))
        a = o["pair"]
        evs.append(event("PairTildeR " + prec, q, [sel[no[0]]], no[:1], -1, True, co[:1], r=grid(a["r"], prow, sel[no[0]], g), d=slopes(a["d"], prow, sel[no[0]], g), raw=raw(a)))
    return evs


def layout(t, k):
    """The same tensor: as it is, every other number of a wider one, or with its first and last dimension swapped in memory."""
    if k % 3 == 1:
        return OPS.stack([t, t + 1], -1)[..., 0]
    if k % 3 == 2 and t.dim() > 1:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    return t


def op_events(qs, sel, g, cid):
    torch = ops()
    evs = []
    b, n, nc, w, nt = len(qs), len(qs[0]["x"]), len(qs[0]["centres"]), sum(sel), len(sel)
    i32 = torch.int32
    il = torch.tensor([q["centres"] for q in qs], dtype=i32)
    nn = torch.tensor([[len(l) for l in q["nb"]] for q in qs], dtype=i32)
    fn = torch.tensor([[l + [0] * (w - len(l)) for l in q["nb"]] for q in qs], dtype=i32)
    ty = torch.tensor([q["t"] for q in qs], dtype=i32)
    um = torch.tensor([sel for _ in qs], dtype=i32)
    same = list(range(nt))
    rc, rs = qs[0]["rch"] / 2 * g, qs[0]["rsh"] / 2 * g
    for prec in (torch.float64, torch.float32):
        x = torch.tensor([[[c * g for c in p] for p in q["x"]] for q in qs], dtype=prec)
        rel = torch.zeros(b, nc, w, 3, dtype=prec)
        for k, q in enumerate(qs):
            for i, l in enumerate(q["nb"]):
                for j, a in enumerate(l):
                    rel[k, i, j] = x[k, a] - x[k, q["centres"][i]]
        il, nn, fn, ty, um, x, rel = [layout(t, (cid if prec == torch.float64 else cid + 1) // 3 ** j) for j, t in enumerate((il, nn, fn, ty, um, x, rel))]
        name = str(prec).split(".")[1]
        keep = [t.clone() for t in (il, nn, fn, rel, ty, um, x)]

        def env():
            r, d = torch.ops.deepmd.EnvMatrixOp(il, nn, fn, rel, ty, um, rc, rs)[:2]
            assert r.dtype == prec and list(r.shape) == [b, nc, w, 4] and list(d.shape) == [b, nc, w, 4, 3], "shape"
            return r, d

        def se4():
            r, d, v = torch.ops.vfops.se4pw(il, nn, fn, x, ty, nt, um[0], rc, rs)[:3]
            p = torch.ops.vfops.prim(il, nn, fn, ty, nt, um[0])
            p = p[0] if isinstance(p, (list, tuple)) else p
            return r, d, v, p
        for nm, f, sign in (("EnvMatrixOp", env, 1), ("Se4pwOp", se4, -1)):
            out, err = drv.attempt(f)
            if not err and not all(torch.equal(s, t) for s, t in zip(keep, (il, nn, fn, rel, ty, um, x))):
                err = "an argument was changed"
            for k, q in enumerate(qs):
                if err:
                    evs.append(event("%s %s" % (nm, name), q, sel, same, sign, err=err))
                    continue
                fl = lambda t: t[k].reshape(-1).tolist()
                evs.append(event("%s %s" % (nm, name), q, sel, same, sign, r=grid(fl(out[0]), nc, w, g), d=slopes(fl(out[1]), nc, w, g),
                                 v=vecs(fl(out[2]), nc, w, g) if len(out) > 2 else None,
                                 p=[[int(a) for a in row] for row in out[3][k].reshape(nc, w).tolist()] if len(out) > 2 else None,
                                 raw=(fl(out[0]), fl(out[1]), g, rs, rc) if prec == torch.float64 else None))
    return evs


def crystal_events(c):
    g = c["unit"] / 4.0
    qy, co, no = c["qy"], c["co"], c["no"]
    evs = []
    for auto in (0, 1):
        sel = [m + c["room"] for m in c["need"]] if not auto else c["need"]
        line = "cls %r %r %d %d %d %d " % (qy["rch"] / 2 * g, qy["rsh"] / 2 * g, *map(int, qy["pbc"]), auto)
        line += " ".join(map(str, [len(co)] + co + [len(no)] + no + sel + [len(qy["z"])]))
        line += " " + " ".join(repr(x * g) for v in qy["cell"] for x in v) + " " + " ".join(map(str, qy["z"]))
        line += " " + " ".join(repr(x * g) for v in qy["pos"] for x in v)
        o, err = drv.attempt(lambda: ask(line))
        b = {"op": "crystal", "qy": dict(qy), "err": err, "sign": -1, "hasd": True}
        if err:
            evs.append(dict(b, what="TildeR", co=co, no=no, sel=sel, auto=0, r=[], d=[], fine=0))
            continue
        nz = sum(sel)
        evs.append(dict(b, what="TildeR", co=co, no=no, sel=sel if o["cols"] == nz else [o["cols"]] + [0] * (len(no) - 1), auto=auto,
                        r=grid(o["r"], o["rows"], o["cols"], g), d=slopes(o["d"], o["rows"], o["cols"], g), fine=fine.worst(o["r"], o["d"], g, qy["rsh"] / 2 * g, qy["rch"] / 2 * g, -1)))
        evs.append(dict(b, what="PairTildeR", co=co[:1], no=no[:1], sel=[o["pcols"]], auto=2 * auto,
                        r=grid(o["pr"], o["prows"], o["pcols"], g), d=slopes(o["pd"], o["prows"], o["pcols"], g), fine=fine.worst(o["pr"], o["pd"], g, qy["rsh"] / 2 * g, qy["rch"] / 2 * g, -1)))
    return evs


def run_case(c):
    if "qy" in c:
        return {"events": crystal_events(c)}
    g = c["unit"] / 4.0
    evs = []
    for q in c["qs"]:
        evs += class_events(q, c["sel"], g, c["co"], c["no"])
    return {"events": evs + op_events(c["qs"], c["sel"], g, c["id"])}


drv.main(run_case)
