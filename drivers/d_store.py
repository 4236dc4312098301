"""Replays file-store histories with every path-based reader of the package."""
import os, shutil, zlib, json, random, warnings
warnings.filterwarnings("ignore")
import numpy as np
from vf import drv, acfmt
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.pwmat.utils.acextractor import ACExtractor
from matersdk.io.pwmat.utils.mvextractor import MVExtractor
from matersdk.io.pwmat.output.movement import Movement
from matersdk.io.pwmat.output.report import Report
from matersdk.io.pwmat.output.outfermi import OutFermi
from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
from matersdk.io.pwmat.input.inkpt import Inkpt
from matersdk.data.infoset import InfoSet
W = os.environ["VF_WORK"]


def ac_lines(v, frame=0):
    n = 2
    L = [" Lattice vector"]
    for i in range(3):
        row = [0.0, 0.0, 0.0]
        row[i] = 5.0 + v + i
        L.append("  %.8f  %.8f  %.8f   stress (eV): %.4f 0.0 0.0" % (tuple(row) + (100.0 * v + i,)))
    L.append(" Position, move_x, move_y, move_z")
    for i in range(n):
        L.append("  %d  %.8f  %.8f  %.8f  1 1 1" % (10 + v, 0.125 * v, 0.5 * i, 0.25))
    L.append(" Force")
    for i in range(n):
        L.append("  %d  %.8f  0.0  0.0" % (10 + v, 1.0 * v))
    L.append(" Magnetic")
    for i in range(n):
        L.append("  %d  %.4f" % (10 + v, 0.5 * v))
    return L


def text(kind, v):
    if kind in ("ac", "ds"):
        return "  2 atoms\n" + "\n".join(ac_lines(v)) + "\n"
    if kind == "poscar":
        return "X%d\n1.0\n%.6f 0.0 0.0\n0.0 %.6f 0.0\n0.0 0.0 %.6f\n%s\n1\nDirect\n%.6f 0.5 0.25\n" % (v, 5 + v, 6 + v, 7 + v, ["H", "He", "Li", "Be"][v - 1], 0.125 * v)
    if kind in ("mv", "mo", "info"):
        out = []
        for k in range(2):
            out.append("   2 atoms,Iteration (fs) =    %.10E, Etot,Ep,Ek (eV) =   %.10E   %.10E   %.10E, SCF =   3" % (k, -100.0 * v, -101.0 * v, 1.0 * v))
            out += ac_lines(v)
            out.append(" ----------------------------------------")
        return "\n".join(out) + "\n"
    if kind == "fermi":
        return " Fermi Energy (eV) =  0.0   %.5f   eV\n" % (v + 0.5)
    if kind == "report":
        L = [" IN.ATOM = a%d.config" % v, " NUM_KPT = 2", " NUM_BAND = %d" % (v + 5)]
        for k in range(2):
            L.append(" eigen energies, in eV")
            e = [10.0 * v + b for b in range(v + 5)]
            for i in range(0, len(e), 5):
                L.append("".join("%12.4f" % t for t in e[i:i + 5]))
        return "\n".join(L) + "\n"
    if kind == "dos":
        return "# Energy Total Mo-s S-p\n" + "".join("%.4f %.4f %.4f %.4f\n" % (v, 2 * v, v, v) for _ in range(3))
    if kind == "fat":
        L = ["KPOINT ENERGY weight_tot Mo-4S S-3Pz"]
        for b in range(v + 1):
            L.append("BAND %d" % (b + 1))
            for k in range(v):
                L.append("0.1 %.4f 1.0 %.4f %.4f" % (v, v, v))
            L.append("")
        return "\n".join(L) + "\n"
    if kind == "inkpt":
        return "  %d\n  2  0\n" % (v + 1) + "".join("%.6f 0.0 0.0  %.4f %s\n" % (0.125 * v, 0.5 * v, "G%d" % v if k == 0 else "") for k in range(v + 1))


def one(vals):
    s = {int(round(float(x))) if abs(float(x) - round(float(x))) < 1e-6 else -1 for x in vals}
    return s.pop() if len(s) == 1 else -2


def make(kind, path):
    return {"ac": lambda: ACExtractor(path), "ds": lambda: DStructure.from_file(file_path=path, file_format="pwmat"),
            "poscar": lambda: DStructure.from_file(file_path=path, file_format="vasp"), "mv": lambda: MVExtractor(movement_path=path),
            "mo": lambda: Movement(movement_path=path), "info": lambda: InfoSet.from_file(file_path=path, file_format="pwmat/movement"),
            "fermi": lambda: OutFermi(out_fermi_path=path), "report": lambda: Report(report_path=path), "dos": lambda: Dostotalspin(dos_totalspin_path=path),
            "fat": lambda: FatbandStructure(fatbandstructure_txt_path=path), "inkpt": lambda: Inkpt(in_kpt_path=path)}[kind]()


def structure(s, moments):
    r = [one([x - 5 - i for i, x in enumerate(s.lattice.abc)]), one(s.frac_coords[:, 0] / 0.125), one([x.specie.Z - (10 if moments else 0) for x in s.sites])]
    return r


def replies(kind, x):
    """Every getter's answer as a version number."""
    if kind == "ac":
        return [lambda: one([t - 5 - i for i, t in enumerate(np.asarray(x.get_basis_vectors()).reshape(3, 3).diagonal())]), lambda: one(np.asarray(x.get_coords()).reshape(-1, 3)[:, 0] / 0.125),
                lambda: one([t - 10 for t in x.get_types()]), lambda: one([t / 0.5 for t in x.get_magmoms()])]
    if kind in ("ds", "poscar"):
        return [lambda i=i: structure(x, kind == "ds")[i] for i in range(3)]
    if kind == "mv":
        return [lambda: one([np.asarray(a).reshape(-1, 3)[0, 0] / 0.125 for a in x.get_frames_info()[2]]),
                lambda: one([np.asarray(x.get_frame_info(1)[3]).reshape(-1)[0] / -100]), lambda: one([np.asarray(x.get_frame_info(0)[0]).reshape(-1)[0] - 5])]
    if kind == "mo":
        return [lambda: one([x.get_frame_energy(1)[2]]), lambda: structure(x.get_frame_structure(0), True)[0], lambda: one([x.get_frame_virial(0)[0][0] / 100]),
                lambda: structure(x.get_frame_structure(1), True)[2], lambda: one([round(x.get_frame_volume(1) ** (1 / 3.0) - 6.0)])]
    if kind == "info":
        return [lambda: one([np.asarray(a).reshape(-1)[0] - 5 for a in x.box]), lambda: one([np.asarray(a).reshape(-1)[0] / 0.125 for a in x.coord]), lambda: one([e / -100 for e in np.asarray(x.etot).reshape(-1)])]
    if kind == "fermi":
        return [lambda: one([x.get_efermi() - 0.5])]
    if kind == "report":
        return [lambda: x.get_num_bands() - 5, lambda: one([x.get_eigen_energies()["up"][1][0] / 10]), lambda: int(x.get_in_atom()[1:-7])]
    if kind == "dos":
        return [lambda: one(x.get_tdos()["Energy"]), lambda: one(x.get_pdos_elements()["Mo"]), lambda: one(x.get_pdos_orbitals()["S-p"])]
    if kind == "fat":
        return [lambda: one([x.num_bands - 1, x.num_kpoints]), lambda: one(x.get_total_dfs_lst()[0]["ENERGY"]), lambda: one(x.get_element_dfs_lst()[1]["Mo"]), lambda: one(x.get_orbital_dfs_lst("S-3Pz")[0]["S-3Pz"])]
    if kind == "inkpt":
        return [lambda: x.get_num_kpts() - 1, lambda: one(np.asarray(x.get_kpt_coords_frac())[:, 0] / 0.125), lambda: one([t / 0.5 for t in x.get_kpt_weights()]), lambda: int(x.get_hsp()["hsp"][0][1:])]


NAME = {"ac": "atom.config", "ds": "atom.config", "poscar": "POSCAR", "mv": "MOVEMENT", "mo": "MOVEMENT", "info": "MOVEMENT", "fermi": "OUT.FERMI",
        "report": "REPORT", "dos": "DOS.totalspin_projected", "fat": "fatbandstructure_1.txt", "inkpt": "IN.KPT"}
FIXED = ("fat",)     # a kept reader of this kind mixes what it read when made with what it reads later: only asked while fresh


def run_case(c):
    kind = c["kind"]
    root = os.path.join(W, "store")
    shutil.rmtree(root, ignore_errors=True)
    here = os.getcwd()
    paths = {d: os.path.join(root, "d%d" % d, NAME[kind]) for d in (1, 2)}
    content = {}

    def write(d, v):
        content[d] = text(kind, v)
        with open(paths[d], "w") as fh:
            fh.write(content[d])
    for d in (1, 2):
        os.makedirs(os.path.dirname(paths[d]))
        write(d, d)
    ev, objs, stale = [], {}, set()
    try:
        os.chdir(os.path.dirname(paths[1]))
        for o in c["hist"]:
            def f():
                op = o["op"]
                if op == "write":
                    write(o["d"], o["v"])
                    stale.update(i for i, (dd, _) in objs.items() if dd == o["d"])
                elif op == "chdir":
                    os.chdir(os.path.dirname(paths[o["d"]]))
                elif op == "open":
                    objs[o["slot"]] = (o["d"], make(kind, paths[o["d"]]))
                    stale.discard(o["slot"])
                else:
                    x = make(kind, NAME[kind] if op == "rel" else paths[o["d"]]) if op != "ask" else objs[o["slot"]][1]
                    g = replies(kind, x)
                    return {"reply": int(g[o["get"] % len(g)]())}
                return {}
            if o["op"] == "ask" and kind in FIXED and o["slot"] in stale:
                continue
            v, err = drv.attempt(f)
            tree = sorted(os.path.join(a, b) for a, _, fs in os.walk(root) for b in fs)
            intact = tree == sorted(paths.values()) and all(open(paths[d]).read() == content[d] for d in (1, 2))
            ev.append(dict(o, err=err, intact=intact, **(v or {})))
            if err and o["op"] == "open":
                break
    finally:
        os.chdir(here)
    return {"init": {}, "events": ev}


drv.main(run_case)
