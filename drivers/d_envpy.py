"""Replays crystals through the Python environment matrices (pair, all species, normalizers)."""
import os, tempfile
import numpy as np
from vf import drv, fine
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
from matersdk.io.pwmat.utils.parameters import atomic_number2specie
from matersdk.feature.deepmd.premise import DpFeaturePairPremiseDescriptor
from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
from matersdk.feature.deepmd.se import DpseTildeRDescriptor


def make(qy, g):
    return DStructure(np.array(qy["cell"], float) * g, [atomic_number2specie[z] for z in qy["z"]], np.array(qy["pos"], float) * g, coords_are_cartesian=True)


def vals(a, g):
    return [[[drv.fx(x * g, 32768) for x in s] for s in row] for row in np.asarray(a, float)]


def slps(a, g):
    return [[[[drv.fx(x * g * g, 32768) for x in k] for k in s] for s in row] for row in np.asarray(a, float)]


def offs(a, g):
    return [[[drv.q(x / g, 1) for x in s] for s in row] for row in np.asarray(a, float)]


def crystal(what, qy, co, no, sel, err, r, d, g):
    return {"op": "crystal", "what": what, "qy": qy, "co": co, "no": no, "sel": sel, "err": err, "sign": -1, "hasd": d is not None,
            "r": [] if r is None else vals(r, g), "d": [] if d is None else slps(d, g), "fine": 0 if r is None else fine.worst(r, d, g, qy["rsh"] / 2 * g, qy["rch"] / 2 * g, -1)}


def matrices(c):
    g, qy, co, no = c["unit"] / 4.0, c["qy"], c["co"], c["no"]
    st = make(qy, g)
    wide, rc, rs = qy["wide"] / 2 * g, qy["rch"] / 2 * g, qy["rsh"] / 2 * g
    scale = [2 * k + 1 for k in c["reach"]]
    sel = [w + c["room"] for w in c["broad"]]
    evs = []
    sn, err = drv.attempt(lambda: StructureNeighborsDescriptor.create("v1", structure=st, rcut=wide, scaling_matrix=scale))
    for cz in co:
        for k, nz in enumerate(no):
            e = {"op": "pair", "qy": qy, "co": [cz], "no": [nz], "width": sel[k]}

            def f():
                p = DpseTildeRPairDescriptor.create("v1", sn, cz, nz, rc, rs)
                x = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=sn).expand_rc(cz, nz, sel[k])
                return {"an": [[int(v) for v in row] for row in p.dp_feature_pair_an], "v": offs(p.dp_feature_pair_rc, g),
                        "d2": [[drv.q((v / g) ** 2, 1) for v in row] for row in p.dp_feature_pair_d],
                        "fine": fine.worst(p.get_tildeR(sel[k]), p.calc_derivative(sel[k]), g, rs, rc, -1),
                        "r": vals(p.get_tildeR(sel[k]), g), "d": slps(p.calc_derivative(sel[k]), g), "x": offs(x, g)}
            r, er = drv.attempt(f) if not err else (None, err)
            evs.append(dict(e, err=er, **(r or {})))

    def flat():
        a = DpseTildeRDescriptor.create("v1", sn, co, no, sel, rc, rs).get_tildeR()
        rows, at = [], 0
        for cz in co:
            m = qy["z"].count(cz)
            parts = []
            for s in sel:
                parts.append(np.asarray(a[at:at + m * s * 4]).reshape(m, s, 4))
                at += m * s * 4
            rows.append(np.concatenate(parts, axis=1))
        assert at == len(a), "length"
        return np.concatenate(rows, axis=0)
    r, er = drv.attempt(flat) if not err else (None, err)
    evs.append(crystal("DpseTildeR", qy, co, no, sel, er, r, None, g))
    if qy["wide"] == qy["rch"]:
        evs += normalizer(c, st, scale, sel, g)
    return evs


def normalizer(c, st, scale, sel, g):
    from matersdk.feature.deepmd.preprocess import TildeRNormalizer
    qy, co, no = c["qy"], c["co"], c["no"]
    avg = np.array([[k / 7.0, 0, 0, 0] for k in range(1, len(co) + 1)])
    std = np.array([[1.1 * 2.0 ** -k, 0.55 ** (k + 1), 0.55 ** (k + 1), 0.55 ** (k + 1)] for k in range(len(co))])
    evs = []
    with tempfile.TemporaryDirectory(dir=os.environ["VF_DIR"]) as tmp:
        def first():
            return TildeRNormalizer(rcut=qy["rch"] / 2 * g, rcut_smooth=qy["rsh"] / 2 * g, center_atomic_numbers=co, nbr_atomic_numbers=no, max_num_nbrs=sel,
                                    scaling_matrix=scale, davgs=avg.copy(), dstds=std.copy())

        def again():
            n = first()
            p = os.path.join(tmp, "n.h5")
            n.to(p)
            m = TildeRNormalizer.from_file(p)
            same = all(np.array_equal(np.asarray(getattr(n, k)), np.asarray(getattr(m, k))) for k in
                       ("rcut", "rcut_smooth", "center_atomic_numbers", "nbr_atomic_numbers", "max_num_nbrs", "scaling_matrix", "davgs", "dstds"))
            evs.append({"op": "file", "err": "", "same": bool(same)})
            return m
        for what, mk in (("TildeRNormalizer", first), ("TildeRNormalizer read back", again)):
            def f():
                r, d = mk().normalize(st)
                r, d = np.array(r, float), np.array(d, float)
                at = 0
                for k, cz in enumerate(co):
                    m = qy["z"].count(cz)
                    r[at:at + m] = r[at:at + m] * std[k] + avg[k]
                    d[at:at + m] = d[at:at + m] * std[k].reshape(4, 1)
                    at += m
                return r, d
            o, er = drv.attempt(f)
            evs.append(crystal(what, qy, co, no, sel, er, *(o or (None, None)), g))
    return evs


def stats(c):
    from matersdk.feature.deepmd.preprocess import TildeRPairNormalizer
    a = np.array(c["a"], float) / 64
    n = len(a)
    shape = c["shape"]

    def f():
        t = TildeRPairNormalizer(tildeRs_array=a.reshape(*shape, 4).copy())
        avg, std = np.asarray(t.davg).reshape(4), np.asarray(t.dstd).reshape(4)
        mul = [1, 9, 9, 9]
        return t, {"avg": [drv.q(x * n * 64, 1) for x in avg],
                   "std": [[1, 0] if abs(s - 0.01) < 1e-12 else [0, drv.q(s * s * 4096 * n * n * m, 1, tol=1e-4)] for s, m in zip(std, mul)]}
    r, err = drv.attempt(f)
    evs = [dict({"op": "stats", "a": c["a"], "err": err}, **(r[1] if r else {}))]
    da = np.array(c["da"], float).reshape(*shape, 4, 3)
    given = TildeRPairNormalizer(davg=np.array(c["avg"], float).reshape(1, 4) / 64, dstd=np.array([2.0 ** -k for k in c["std"]]).reshape(1, 4))
    for t in [given] + ([r[0]] if r else []):
        def h():
            x = a.reshape(*shape, 4).copy()
            y, dy = t.normalize(x), t.normalize_derivative(da.copy())
            assert y.shape == x.shape and dy.shape == da.shape, "shape"
            av, sd = np.asarray(t.davg).reshape(4), np.asarray(t.dstd).reshape(4)
            return [[drv.q(v * 64, 1) for v in row] for row in (y * sd + av).reshape(-1, 4)], [[drv.q(v, 1) for v in row] for row in (dy * sd.reshape(4, 1)).reshape(-1, 12)]
        o, er = drv.attempt(h)
        evs.append({"op": "norm", "a": c["a"], "da": np.array(c["da"]).reshape(-1, 12).tolist(), "err": er, "back": o[0] if o else [], "dback": o[1] if o else []})
    return evs


def system(c):
    from matersdk.feature.deepmd.preprocess import TildeRNormalizer, TildeRPairNormalizer
    from matersdk.data.struct_collection import StructCollection
    g = c["unit"] / 4.0
    fr, co, no, sel, pick = c["frames"], c["co"], c["no"], c["sel"], c["pick"]
    rc, rs = fr[0]["rch"] / 2 * g, fr[0]["rsh"] / 2 * g
    scale = [2 * k + 1 for k in c["reach"]]

    def f():
        sts = [make(q, g) for q in fr]
        z = np.zeros(len(fr))
        col = StructCollection(sts, z, z, z, np.zeros((len(fr), 3, 3)))
        kw = dict(rcut=rc, rcut_smooth=rs, center_atomic_numbers=co, nbr_atomic_numbers=no, max_num_nbrs=sel, scaling_matrix=scale)
        t = TildeRNormalizer.from_dp_labeled_system(dp_labeled_system=col, structure_indices=pick, **kw)
        avg, std = np.asarray(t.davgs), np.asarray(t.dstds)
        agree = True
        for k, cz in enumerate(co):
            m = []
            for p in pick:
                sn = StructureNeighborsDescriptor.create("v1", structure=make(fr[p], g), rcut=rc, scaling_matrix=scale)
                m += [DpseTildeRPairDescriptor.create("v1", sn, cz, nz, rc, rs).get_tildeR(sel[j]) for j, nz in enumerate(no)]
            u = TildeRPairNormalizer(tildeRs_array=np.concatenate(m, axis=1))
            agree = agree and np.allclose(u.davg.reshape(4), avg[k], atol=1e-12) and np.allclose(u.dstd.reshape(4), std[k], atol=1e-9)
        return {"avg": [[drv.fx(x * g, 32768) for x in row] for row in avg], "std": [[drv.fx((x * g) ** 2, 32768) for x in row] for row in std], "agree": bool(agree)}
    r, err = drv.attempt(f)
    return [dict({"op": "sys", "frames": fr, "co": co, "no": no, "sel": sel, "pick": pick, "err": err}, **(r or {}))]


def run_case(c):
    return {"events": {"crystal": matrices, "stats": stats, "sys": system}[c["kind"]](c)}


drv.main(run_case)
