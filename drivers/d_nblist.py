"""Replays neighbour-list queries through the compiled nblist extension."""
import ctypes, os, sys
sys.path.insert(0, os.path.join(os.environ["VF_DIR"], "nblist"))
import numpy as np
from vf import drv
from vf.plain import plain
import nblist


class Info(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


MI = ctypes.CDLL(None).mallinfo2
MI.restype = Info


def held():
    m = MI()
    return m.uordblks + m.hblkhd


def layout(a, k):
    """The same array, C ordered, Fortran ordered, or a slice of a larger one."""
    if k % 3 == 1:
        return np.asfortranarray(a)
    if k % 3 == 2:
        b = np.full((2 * a.shape[0] + 1,) + tuple(d + 2 for d in a.shape[1:]), 3, dtype=a.dtype)
        v = b[1::2] if a.ndim == 1 else b[1::2, 1:-1]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


def run_case(c):
    given, K, M = c["qy"], c["K"], c["M"]
    qy, g = plain(given), K * M * given.get("fz", 1)
    lat = np.array(qy["cell"], dtype=np.float64) / g
    n = len(qy["pos"])
    if qy["cart"]:
        xyz = np.array(qy["pos"], dtype=np.float64) / g
    else:
        xyz = np.array(qy["frac"], dtype=np.float64) / K
    z = np.array(qy["z"], dtype=np.int32)
    rcut = qy["rch"] / (2.0 * g)
    umax = c["umax"]
    qy, given = dict(qy, umax=umax), dict(given, umax=umax)
    i = c["id"]

    def call():
        return nblist.find_info4mlff(layout(lat, i), layout(z, i // 3), layout(xyz, i // 9), float(rcut),
                                     list(map(bool, qy["pbc"])), int(umax), bool(qy["sort"]), bool(qy["cart"]))
    r, err = drv.attempt(call)
    e = {"op": "query", "qy": given, "err": err, "kept": 0}
    if not err:
        if i % 4 == 0:        # forty replies that are dropped: how many tables of one number per atom stay behind
            for _ in range(4):
                call()
            m = held()
            for _ in range(40):
                call()
            e["kept"] = max(0, int(held() - m) // max(40 * 4 * n, 512))
        inum, ilist, numneigh, firstneigh, rel, types, nghost = r
        e.update(inum=int(inum), ilist=[int(x) for x in ilist], numneigh=[int(x) for x in numneigh],
                 firstneigh=[[int(x) for x in row] for row in firstneigh],
                 rel=[[[drv.q(x, g) for x in v] for v in row] for row in rel],
                 types=[int(x) for x in types], nghost=int(nghost))
    return {"events": [e]}


drv.main(run_case)
