"""Replays band-structure sessions through Report and OutFermi."""
import os, random
from vf import drv
from matersdk.io.pwmat.output.report import Report
from matersdk.io.pwmat.output.outfermi import OutFermi
W = os.environ["VF_WORK"]


def report(r, rnd):
    nk, nb = len(r["eig"][0]), len(r["eig"][0][0])
    L = [" PRECISION = AUTO", " JOB = NONSCF", " IN.ATOM = my_atom.config", " ECUT = 50.0", " NUM_KPT    =    %d" % nk, " NUM_BAND = %d" % nb]
    rnd.shuffle(L)
    L.append(" SPIN = %d" % len(r["eig"]))
    for s in r["eig"]:
        for k, es in enumerate(s):
            if rnd.random() < .5:
                L.append(" *********************")
            L.append(" kpt= %d   0.0 0.0 %.6f" % (k + 1, rnd.random()))
            L.append(" err of each states, A.U")
            L.append(" eigen energies, in eV")
            for i in range(0, nb, 5):
                L.append("".join("%15.4f" % (x / 1e4) for x in es[i:i + 5]))
            if rnd.random() < .7:
                L.append(" *********************")
    L.append(" total computation time (sec)= 1")
    return "\n".join(L) + "\n"


def arr(a):
    return [[drv.q(x, 10**4, 1e-8) for x in k] for k in a]


def edge(d):
    if d is None:
        return {"metal": True}
    return {"metal": False, "energies": [drv.q(x, 10**4, 1e-8) for x in d["energies"]], "kpts": [int(x) for x in d["kpts"]],
            "bands": [int(x) for x in d["bands"]], "spins": [str(x) for x in d["spins"]]}


def run_case(c):
    r = c["init"]
    rnd = random.Random(c["id"])
    p, pf = os.path.join(W, "REPORT"), os.path.join(W, "OUT.FERMI")
    with open(p, "w") as fh:
        fh.write(report(r, rnd))
    with open(pf, "w") as fh:
        fh.write(" Fermi Energy (eV) =  %.10f   %.5f   eV\n" % (r["raw"] / 1e5 / 27.211386, r["raw"] / 1e5) if rnd.random() < .5
                 else " The Fermi energy is %.5f eV\n" % (r["raw"] / 1e5))
    rep = Report(report_path=p)
    ev = []
    for op in c["hist"]:
        def f():
            if op == "counts":
                return {"nk": int(rep.get_num_kpts()), "nb": int(rep.get_num_bands()), "inatom": rep.get_in_atom() == "my_atom.config"}
            if op == "eig":
                d = rep.get_eigen_energies()
                return {"up": arr(d["up"]), "down": arr(d["down"])}
            if op == "fermi":
                return {"reply": drv.q(OutFermi(out_fermi_path=pf).get_efermi(), 1000, 1e-9)}
            if op == "cbm":
                return edge(rep.get_cbm(out_fermi_path=pf))
            if op == "vbm":
                return edge(rep.get_vbm(out_fermi_path=pf))
            if op == "gap":
                return {"reply": drv.q(rep.get_bandgap(out_fermi_path=pf), 10**4, 1e-8)}
            if op == "type":
                return {"reply": int(rep.get_bandgap_type(out_fermi_path=pf))}
        v, err = drv.attempt(f)
        ev.append(dict(v or {}, op=op, err=err))
    return {"init": r, "events": ev}


drv.main(run_case)
