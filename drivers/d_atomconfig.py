"""Replays atom.config sessions through DStructure.to / from_file / from_str and the extractors."""
import os, zlib, json
import numpy as np
from pymatgen.core.periodic_table import DummySpecies, Element
from vf import drv, acfmt
from matersdk.io.publicLayer.structure import DStructure
from matersdk.io.pwmat.utils.acextractor import ACExtractor, ACstrExtractor
from matersdk.io.pwmat.utils.parameters import atomic_number2specie, specie2atomic_number

W = os.environ["VF_WORK"]


def sp(z):
    return DummySpecies("X") if z == 0 else Element.from_Z(z)


def grid(a, u):
    return [[drv.q(x, u, 1e-5 / u ** 0.5) for x in v] for v in np.asarray(a, float).reshape(-1, 3)]


def qq(x, u):
    return drv.q(x, u, 1e-9)


def show(s):
    return {"lat": grid(s.lattice.matrix, 10**4), "z": [0 if isinstance(x.specie, DummySpecies) else int(x.specie.Z) for x in s.sites],
            "f": [[qq(x, 10**6) for x in v] for v in s.frac_coords]}


def mat(a, u):
    a = np.asarray(a, float)
    return [[qq(x, u) for x in v] for v in a.reshape(-1, 3)]


def run_case(c):
    ev = []
    paths = {"a": os.path.join(W, "atom.config"), "b": os.path.join(W, "final.config")}
    if c.get("tables"):
        bad = [z for z in range(119) if specie2atomic_number.get(atomic_number2specie.get(z)) != z
               or (z and Element.from_Z(z).symbol != atomic_number2specie[z])]
        return {"events": [{"op": "tables", "bad": bad}]}
    for k, o in enumerate(c["hist"]):
        e = dict(o, err="")
        if o["op"] == "put":
            with open(paths[o["p"]], "w") as fh:
                fh.write(acfmt.render(o["lines"], zlib.crc32(json.dumps([c["id"], k]).encode())))
        elif o["op"] == "write":
            s = o["s"]

            def f():
                st = DStructure(np.array(s["lat"]) / 1e4, [sp(z) for z in s["z"]], np.array(s["f"], float) / 1e6,
                                site_properties={"magmom": [x / 100.0 for x in s["m"]]})
                st.to(file_path=paths[o["p"]], file_format="pwmat", include_magnetic_moments=o["mag"])
                return acfmt.parse(open(paths[o["p"]]).read(), qq)
            e["got"], e["err"] = drv.attempt(f)
        elif o["op"] == "copy":
            def f():
                st = DStructure.from_file(file_path=paths[o["p"]], file_format="pwmat")
                st.to(file_path=paths[o["q"]], file_format="pwmat")
                return acfmt.parse(open(paths[o["q"]]).read(), qq)
            e["got"], e["err"] = drv.attempt(f)
        elif o["op"] == "poscar":
            def f():
                p = os.path.join(W, "POSCAR")
                DStructure.from_file(file_path=paths[o["p"]], file_format="pwmat").to(file_path=p, file_format="poscar")
                st = DStructure.from_file(file_path=p, file_format="vasp")
                assert isinstance(st, DStructure)
                return show(st)
            r, e["err"] = drv.attempt(f)
            e.update(r or {})
        else:
            text = open(paths[o["p"]]).read()

            def f():
                h = o["how"]
                if h == "structure":
                    st = DStructure.from_file(file_path=paths[o["p"]], file_format="pwmat")
                    assert isinstance(st, DStructure)
                    return show(st)
                if h == "structure_text":
                    return show(DStructure.from_str(str_content=text, str_format="pwmat"))
                x = ACExtractor(file_path=paths[o["p"]]) if h == "extractor" else ACstrExtractor(atom_config_str=text)
                r = {"n": int(x.get_num_atoms()), "lat": mat(x.get_basis_vectors(), 10**4), "z": [int(z) for z in x.get_types()],
                     "f": mat(x.get_coords(), 10**6)}
                if h == "extractor":
                    r["m"] = [qq(v, 100) for v in x.get_magmoms()]
                else:
                    m, er = drv.attempt(x.get_magmoms)
                    r["m"] = [] if er.startswith("AttributeError") else [qq(v, 100) for v in m]
                    r["force"] = mat(x.get_fatoms(), 10**6)
                    m, er = drv.attempt(x.get_virial)
                    r["stress"] = [] if er.startswith("AttributeError") else mat(m, 1000)
                return r
            r, e["err"] = drv.attempt(f)
            e.update(r or {})
        if e.get("got") is None:
            e["got"] = []
        ev.append(e)
        if e["err"]:
            break
    return {"events": ev}


drv.main(run_case)
