"""Queries on the fine grid of NbListFine, written out on one grid."""


def plain(qy):
    f = qy.get("fz")
    if not f:
        return qy
    return dict(qy, cell=[[f * x for x in v] for v in qy["cell"]], pos=[[f * x + d for x, d in zip(v, j)] for v, j in zip(qy["pos"], qy["jit"])], rch=qy["rcf"])
