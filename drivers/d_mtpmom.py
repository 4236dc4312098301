"""Replays radial functions, tensor powers, moments and basis functions (harness/radial.cc and the torch modules)."""
import os
from vf import drv, ask

H = ask.Harness("radial")
T = None


def ops():
    global T
    if T is None:
        import torch
        torch.set_num_threads(1)
        torch.ops.load_library(os.path.join(os.environ["VF_DIR"], "ops", "mtp.so"))
        T = torch
    return T


def layout(t, k):
    """The same tensor: as it is, every other number of a wider one, or with its first and last dimension swapped in memory."""
    if k % 3 == 1:
        return T.stack([t, t + 1], -1)[..., 0]
    if k % 3 == 2 and t.dim() > 1:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    return t


def tenths(co):
    """Coefficients that are not single precision numbers: the replies are multiplied by ten per moment."""
    def f(v):
        return [f(x) for x in v] if isinstance(v, list) else v / 10
    return [f(v) for m in co for i in m for v in i]


def off(pairs):
    """How far numbers are from the grids they belong on, in 1e-12."""
    w = 0.0
    for x, scale in pairs:
        v = x * scale
        w = max(w, abs(v - round(v)) / scale) if abs(v) < 9e15 else 1.0
    return int(min(2e8, w * 1e12))


def radial(c):
    N, h, size, w, rs = c["N"], c["N"] // 2, c["size"], c["w"], c["rs"]
    evs = []
    for what in ("mtp64", "mtp32", "mtpr64", "mtpr32", "de64", "de32"):
        ks = c["ks"] if what in ("mtp64", "mtp32") else [min(max(k, 0), N) for k in c["ks"]]
        line = "%s %d %d %d %d " % (what, size, rs + w, rs, len(ks)) + " ".join(repr(rs + k * w / N) for k in ks)
        r, err = drv.attempt(lambda: H.ask(line))
        for i, k in enumerate(ks):
            e = {"op": "radial", "what": what[:-2], "N": N, "size": size, "k": k, "err": err, "tol": 2 if "64" in what else 400}
            o = r[i] if r else {x: [] for x in ("t", "tx", "tr", "q", "qr", "s")}
            e["t"] = [drv.fx(x, h ** n) for n, x in enumerate(o["t"])]
            e["tx"] = [drv.fx(x, h ** max(n - 1, 0)) for n, x in enumerate(o["tx"])]
            e["tr"] = [drv.fx(x * w, h ** max(n - 1, 0)) for n, x in enumerate(o["tr"])]
            e["q"] = [drv.fx(x, N ** 5 * h ** n) for n, x in enumerate(o["q"])]
            e["qr"] = [drv.fx(x * w, N ** 5 * h ** n) for n, x in enumerate(o["qr"])]
            e["s"] = [drv.fx(o["s"][0], N ** 5), drv.fx(o["s"][1] * w, N ** 4)] if r else []
            e["fine"] = off([(x, h ** n) for n, x in enumerate(o["t"])] + [(x, h ** max(n - 1, 0)) for n, x in enumerate(o["tx"])] + [(x * w, h ** max(n - 1, 0)) for n, x in enumerate(o["tr"])]
                            + [(x, N ** 5 * h ** n) for n, x in enumerate(o["q"])] + [(x * w, N ** 5 * h ** n) for n, x in enumerate(o["qr"])]
                            + ([(o["s"][0], N ** 5), (o["s"][1] * w, N ** 4)] if r else [])) if "64" in what else 0
            evs.append(e)
    return evs


def padded(c, cid):
    """Every so often an offset of zero, as neighbour tables are filled up with: it lies outside rs..rc."""
    c = dict(c, ks=list(c["ks"]), v=list(c["v"]), nv=list(c["nv"]), go=list(c["go"]))
    for i in range(len(c["ks"]), 0, -1):
        if (cid + i) % 3 == 0:
            c["ks"].insert(i, -1)
            c["v"].insert(i, [0, 0, 0])
            c["nv"].insert(i, 1)
            c["go"].insert(i, [i - 2, 1, -1, 2][:c["size"]])
    return c


def q(c, cid):
    t = ops()
    c = padded(c, cid)
    N, h, size, w, rs = c["N"], c["N"] // 2, c["size"], c["w"], c["rs"]
    evs = []
    for dt in (t.float64, t.float32):
        def f():
            x = t.tensor([[a * (rs + k * w / N) / n for a in v] for v, n, k in zip(c["v"], c["nv"], c["ks"])], dtype=t.float64)
            for i, k in enumerate(c["ks"]):      # a length on the boundary must not fall on the other side by rounding
                if k in (0, N):
                    x[i] = t.tensor([float(rs + k * w / N), 0.0, 0.0], dtype=t.float64)
            x = layout(x.to(dt), cid).requires_grad_(True)
            keep = x.detach().clone()
            y = t.ops.vfmtp.q(size, t.tensor([rs + w, rs], dtype=dt), x)
            assert y.dtype == dt and list(y.shape) == [len(c["ks"]), size], "shape"
            y.backward(layout(t.tensor(c["go"], dtype=dt), cid // 3))
            assert t.equal(x.detach(), keep), "an argument was changed"
            return y.tolist(), x.grad.tolist()
        r, err = drv.attempt(f)
        v = [[1, 0, 0] if k in (0, N) else v for v, k in zip(c["v"], c["ks"])]
        nv = [1 if k in (0, N) else n for n, k in zip(c["nv"], c["ks"])]
        d64 = dt == t.float64
        evs.append({"op": "q", "N": N, "size": size, "ks": c["ks"], "v": v, "go": c["go"], "err": err, "tol": 2 if d64 else 400, "gtol": 4 if d64 else 60000,
                    "fine": off([(a, N ** 5 * h ** n) for row in r[0] for n, a in enumerate(row)] + [(a * w * n, N ** 5 * h ** (size - 1)) for row, n in zip(r[1], nv) for a in row]) if r and d64 else 0,
                    "q": [[drv.fx(a, N ** 5 * h ** n) for n, a in enumerate(row)] for row in r[0]] if r else [],
                    "g": [[drv.fx(a * w * n, N ** 5 * h ** (size - 1)) for a in row] for row, n in zip(r[1], nv)] if r else []})
    return evs


def angular(c, cid):
    t = ops()
    evs = []
    for dt in (t.float64, t.float32):
        def f():
            x = layout(t.tensor(c["v"], dtype=dt), cid).requires_grad_(True)
            y = t.ops.vfmtp.angular(x, c["nu"])
            assert y.dtype == dt and list(y.shape) == [len(c["v"])] + [3] * c["nu"], "shape"
            y.backward(layout(t.tensor(c["go"], dtype=dt).reshape(y.shape), cid // 3))
            return y.reshape(len(c["v"]), -1).tolist(), x.grad.tolist()
        r, err = drv.attempt(f)
        evs.append({"op": "angular", "nu": c["nu"], "v": c["v"], "go": c["go"], "err": err,
                    "t": [[drv.q(a, 1) for a in row] for row in r[0]] if r else [], "g": [[drv.q(a, 1) for a in row] for row in r[1]] if r else []})
    return evs


def atoms(nb, zi, nt, first):
    """Types of a few atoms and the atoms standing for centre and neighbours: centre at place first, one atom per neighbour after the last type."""
    ty = [zi if k == first else (k * 7 + 1) % nt for k in range(first + 2)]
    return ty + [b["z"] for b in nb], [first + 2 + j for j in range(len(nb))]


def moment(c, cid):
    t = ops()
    en = c["en"]
    evs = []
    for dt in (t.float64, t.float32):
        def f():
            ty, ix = atoms(en["nb"], en["zi"], c["nt"], len(en["nb"]) % 3)
            x = layout(t.tensor([b["x"] for b in en["nb"]], dtype=dt), cid)
            co = t.tensor(tenths(en["co"]), dtype=dt)
            y = t.ops.vfmtp.moment(c["nmu"], c["nt"], en["size"], t.tensor([en["rs"] + 4.0, en["rs"]], dtype=dt), co, c["mu"], c["nu"], len(en["nb"]) % 3,
                                   layout(t.tensor(ix), cid // 3), layout(t.tensor(ty), cid // 9), x)
            assert y.dtype == dt and list(y.shape) == [3] * c["nu"], "shape"
            return (10 * y.double()).reshape(-1).tolist()
        r, err = drv.attempt(f)
        evs.append({"op": "moment", "en": en, "mu": c["mu"], "nu": c["nu"], "err": err, "tol": 1 if dt == t.float64 else 4000, "fine": off([(a, 1024 * 2 ** (en["size"] - 1)) for a in r]) if r and dt == t.float64 else 0,
                    "m": [drv.fx(a, 1024 * 2 ** (en["size"] - 1)) for a in r] if r else []})
    return evs


def basis(c, cid):
    t = ops()
    B, C = len(c["en"]), len(c["en"][0])
    M = max(len(e["nb"]) for b in c["en"] for e in b) + cid % 3
    flat = B == 1 and cid % 2 == 0

    def f():
        ty, il, fn, xs = [], [], [], []
        for b in c["en"]:
            tb = [e["zi"] for e in b]
            ib = list(range(C))
            rows = []
            for e in b:
                rows.append([len(tb) + j for j in range(len(e["nb"]))] + [0] * (M - len(e["nb"])))
                tb += [n["z"] for n in e["nb"]]
            ty.append(tb)
            il.append(ib)
            fn.append(rows)
            xs.append([[n["x"] for n in e["nb"]] + [[0, 0, 0]] * (M - len(e["nb"])) for e in b])
        n = max(map(len, ty))
        ty = [a + [0] * (n - len(a)) for a in ty]
        dt = t.float64
        x = layout(t.tensor(xs, dtype=dt), cid).requires_grad_(True)
        co = t.tensor(tenths(c["co"]), dtype=dt)
        y = t.ops.vfmtp.basis(c["level"], c["nt"], c["size"], t.tensor([c["rs"] + 2.0, c["rs"]], dtype=dt), co, layout(t.tensor(il), cid // 3), layout(t.tensor(fn), cid // 9),
                              layout(t.tensor(ty[0] if flat else ty), cid // 27), x)
        k = t.ops.vfmtp.combs(c["level"]).tolist()
        combs = []
        while k:
            m = k.pop(0)
            combs.append([[k[2 * i], k[2 * i + 1]] for i in range(m)])
            del k[:2 * m]
        assert list(y.shape) == [B, C, len(combs)], "shape"
        g = []
        if c["grad"]:
            for m in range(len(combs)):
                g.append(t.autograd.grad(y[:, :, m].sum(), x, retain_graph=True, allow_unused=True)[0])
        return combs, y.detach(), g
    r, err = drv.attempt(f)
    evs = []
    for b in range(B):
        for q_ in range(C):
            en = c["en"][b][q_]
            e = {"op": "basis", "en": en, "err": err, "combs": [], "b": [], "g": [], "pad": True}
            if r:
                combs, y, g = r
                e["combs"] = combs
                e["b"] = [drv.q(y[b, q_, m].item() * 10 ** len(combs[m]), 2 ** len(combs[m])) for m in range(len(combs))]
                nn = len(en["nb"])
                e["g"] = [[[drv.q(v.item() * n["r"] * 10 ** len(combs[m]), 32 * 2 ** (len(combs[m]) - 1)) for v in gm[b, q_, j]] for j, n in enumerate(en["nb"])] for m, gm in enumerate(g)]
                e["pad"] = all(bool((gm[b, q_, nn:] == 0).all()) for gm in g)
            evs.append(e)
    return evs


def run_case(c):
    k = c["kind"]
    return {"events": radial(c["c"]) if k == "radial" else {"angular": angular, "moment": moment, "basis": basis, "q": q}[k](c["c"], c["id"])}


drv.main(run_case)
