"""Replays extraction of checkpoints and inference with a stand-in model that records what it is handed."""
import os, shutil
import h5py
import numpy as np
import torch
from torch import nn
from vf import drv, fine
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.pwmat.utils.parameters import atomic_number2specie
from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor
from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer
from matersdk.infer.pwmatmlff.deepmd.inference_depre import FFInfer

W = os.environ["VF_WORK"]
SEEN = []


class StandIn(nn.Module):
    def __init__(self, reply):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1, dtype=torch.double))
        self.reply = reply

    def forward(self, *a):
        SEEN.append(a)
        z = a[0].sum() * 0 + self.w.sum()
        e, f, v = (torch.tensor(x, dtype=torch.double) for x in self.reply)
        return e.sum().reshape(1, 1) + z, e.reshape(1, -1) + z, f.reshape(1, -1, 3) + z, v.reshape(1, 9) + z


def fresh():
    d = os.path.join(W, "infer")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def look(p):
    d = FFExtractor.get_hdf5_dict(p)
    with h5py.File(p, "r") as fh:
        assert set(fh.keys()) == set(d) and all(np.array_equal(fh[k][()], d[k]) for k in d), "get_hdf5_dict differs from the file"
    o = {"arr": [], "other": 0, "m1": int(d.pop("M1")), "m2": int(d.pop("M2")), "ew": [int(x) for x in d.pop("embedding_sizes")], "fw": [int(x) for x in d.pop("fitting_sizes")]}
    for k in sorted(d):
        a = np.asarray(d[k])
        if a.ndim != 2:
            o["other"] += 1
            continue
        o["arr"].append({"name": k, "rows": a.shape[0], "cols": a.shape[1], "start": drv.q(a.flat[0] - 0.1, 1), "counted": bool(np.array_equal(a.ravel(), np.round(a.flat[0] - 0.1) + np.arange(a.size) + 0.1))})
    return o


def ckpt(c):
    d = fresh()
    n = max(o["f"] for o in c["hist"])
    ck = []
    for k, t in enumerate(c["ck"]):
        sd, start, at = {"epoch_like.extra": torch.ones(2)}, {}, 1000000 * (k + 1)
        for a in sorted(t["held"], key=lambda a: a["name"][::-1]):
            start[a["name"]] = at
            sd[a["name"]] = torch.arange(at, at + a["rows"] * a["cols"], dtype=torch.double).reshape(a["rows"], a["cols"]) + 0.1      # not single precision numbers
            at += a["rows"] * a["cols"]
        torch.save({"epoch": 3, "state_dict": sd}, os.path.join(d, "c%d.pt" % (k + 1)))
        ck.append({"e": t["e"], "f": t["f"], "start": start})
    ev, written = [], set()
    for o in c["hist"]:
        def go():
            t = c["ck"][o["k"] - 1]
            x = FFExtractor(pt_path=os.path.join(d, "c%d.pt" % o["k"]), num_embedding_nets=t["e"]["nets"], num_embedding_layers=len(t["e"]["w"]), num_fitting_nets=t["f"]["nets"], num_fitting_layers=len(t["f"]["w"]))
            x.save_hdf5_file(os.path.join(d, "f%d.h5" % o["f"]))
            written.add(o["f"])
            return {"read": [look(os.path.join(d, "f%d.h5" % f)) if f in written else {} for f in range(1, n + 1)]}
        r, err = drv.attempt(go)
        ev.append(dict(o, err=err, **(r or {})))
        if err:
            break
    return {"init": {"kind": "ckpt", "ck": ck, "files": n}, "events": ev}


def infer(c):
    d = fresh()
    g, qy, co, sel = c["unit"] / 4.0, c["qy"], c["co"], c["sel"]
    st = DStructure(np.array(qy["cell"], float) * g, [atomic_number2specie[z] for z in qy["z"]], np.array(qy["pos"], float) * g, coords_are_cartesian=True)
    rc, rs, scale = qy["rch"] / 2 * g, qy["rsh"] / 2 * g, [2 * k + 1 for k in c["reach"]]
    N = len(qy["z"])
    avg = np.array([[k / 7.0, 0, 0, 0] for k in range(1, len(co) + 1)])
    std = np.array([[1.1 * 2.0 ** -k, 0.55 ** (k + 1), 0.55 ** (k + 1), 0.55 ** (k + 1)] for k in range(len(co))])
    reply = ([7 * i + len(co) + 0.1 for i in range(N)], [i + 0.1 for i in range(3 * N)], [i * i + 0.1 for i in range(9)])      # not single precision numbers
    p = os.path.join(d, "model.pt")
    torch.save(StandIn(reply), p)
    kw = dict(rcut=rc, rcut_smooth=rs, davg=avg.copy(), dstd=std.copy(), center_atomic_numbers=co, nbr_atomic_numbers=co, max_num_nbrs=sel, scaling_matrix=scale)
    ev = []
    e = {"op": "infer", "qy": qy, "co": co, "sel": sel}

    def go():
        SEEN.clear()
        et, ea, fo, vi = DpInfer(pt_file_path=p, device="cpu", **kw).infer(st)
        assert len(SEEN) == 1, "one call of the model"
        rcs, r, dr, li, na = SEEN[0]
        plain = all(x.dtype == torch.float64 and x.requires_grad and x.shape[0] == 1 for x in (rcs, r, dr, li))
        r, dr = r.detach().numpy()[0].copy(), dr.detach().numpy()[0].copy()
        at = 0
        for k, z in enumerate(co):
            m = qy["z"].count(z)
            r[at:at + m] = r[at:at + m] * std[k] + avg[k]
            dr[at:at + m] = dr[at:at + m] * std[k].reshape(4, 1)
            at += m
        num = lambda a: [drv.q(x, 10, 1e-12) for x in np.asarray(a).ravel()]
        return {"plain": bool(plain), "rc": [[[drv.q(x / g, 1) for x in s] for s in row] for row in rcs.detach().numpy()[0]],
                "list": [[drv.q(x, 1) for x in row] for row in li.detach().numpy()[0]], "natoms": [int(x) for x in np.asarray(na).reshape(1, -1)[0]],
                "r": [[[drv.fx(x * g, 32768) for x in s] for s in row] for row in r], "d": [[[[drv.fx(x * g * g, 32768) for x in k] for k in s] for s in row] for row in dr],
                "fine": fine.worst(r, dr, g, rs, rc, -1),
                "gave": [num([sum(reply[0])]), num(reply[0]), num(reply[1]), [3, 3] + num(reply[2])],
                "got": [num(et), num(ea), num(fo), list(np.shape(vi)) + num(vi)]}
    r, err = drv.attempt(go)
    ev.append(dict(e, err=err, **(r or {})))
    if not torch.cuda.is_available():
        _, err = drv.attempt(lambda: DpInfer(pt_file_path=p, device="cuda:0", **kw))
        ev.append({"op": "refuse", "err": err})
    with h5py.File(os.path.join(d, "ff.h5"), "w") as fh:
        fh.create_dataset("M1", data=1)
    widths = {z: s for z, s in zip(co, sel)}

    def old():
        return FFInfer(hdf5_path=os.path.join(d, "ff.h5"), rcut=rc, rcut_smooth=rs, max_num_nbrs_dict=widths, davgs_dict={}, dstds_dict={}).calc_tildeR(structure=st, scaling_matrix=scale)
    t, err = drv.attempt(old)
    ev.append({"op": "keys", "z": co, "err": err, "keys": list(t or {})})
    for k in sorted(t or {}):
        a, b = (int(x) for x in k.split("_"))
        if a in widths and b in widths:
            ev.append({"op": "crystal", "what": "FFInfer", "qy": qy, "co": [a], "no": [b], "sel": [widths[b]], "err": "", "sign": -1, "hasd": False, "d": [], "fine": fine.worst(np.asarray(t[k], float), None, g, rs, rc, -1),
                       "r": [[[drv.fx(x * g, 32768) for x in s] for s in row] for row in np.asarray(t[k], float)]})
    return {"init": {"kind": "model"}, "events": ev}


def run_case(c):
    return ckpt(c) if "ck" in c else infer(c)


drv.main(run_case)
