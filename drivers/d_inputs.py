"""Replays the writing of input files; reads them as the programs they are for would."""
import os, re, shutil
from decimal import Decimal
from vf import drv
from matersdk.io.pwmat.input.gen_vext import GenVext
from matersdk.io.pwmat.input.dos_input import DosInput
from matersdk.hpc.slurm.job import Job

W = os.environ["VF_WORK"]


def write(p, o):
    if o["kind"] == "vext":
        v = lambda a: [m * 10 ** -k if k <= 0 and m % 3 == 0 else float("%de%d" % (m, -k)) for m, k in a]      # whole numbers come as ints and as floats
        GenVext(v(o["center"]), o["type"], o["add"], *v(o["detail"])).to(output_path=p)
    elif o["kind"] == "dos":
        DosInput(mark_atoms=o["atoms"], mark_method=o["method"], ismear=float("%de-5" % o["smear"]), num_energies=o["num"], grid_interp=o["grid"]).to(output_path=p)
    else:
        here = os.getcwd()
        os.chdir(os.path.dirname(p))
        try:
            Job(partition=o["partition"], name=o["name"], num_nodes=o["nodes"], num_tasks_per_node=o["tasks"], threads_per_core=o["threads"], num_gpus=o["gpus"], num_gpus_per_task=o["pertask"]).to(os.path.basename(p))
        finally:
            os.chdir(here)


def num(t):
    try:
        s, m, k = Decimal(repr(float(t))).normalize().as_tuple()
    except ValueError:
        return [999999997, 0]
    m = int("".join(map(str, m)))
    return [0, 0] if m == 0 else [-m if s else m, -k] if m < 2 ** 31 else [999999998, 0]


def read(p, kind):
    lines = open(p, encoding="utf-8").read().split("\n")
    if kind == "vext":
        c = {"set": [], "flags": [], "other": 0}
        for l in lines:
            m = re.match(r"\s*(\w+)\s*=\s*(.*?)\s*$", l)
            if not l.strip():
                continue
            if not m:
                c["other"] += 1
            elif m.group(2) in ("T", "F"):
                c["flags"].append([m.group(1), m.group(2)])
            else:
                c["set"].append([m.group(1), [num(t) for t in m.group(2).split()]])
        return c
    if kind == "dos":
        return {"rows": [[num(t) for t in l.split("#")[0].split()] for l in lines if l.strip()]}
    c = {"shell": lines[0].startswith("#!"), "set": []}
    for l in lines[1:]:
        m = re.match(r"#SBATCH\s+--([\w-]+)[= ](\S+)\s*$", l)
        if m:
            c["set"].append([m.group(1), m.group(2)])
        elif l.strip() and not l.startswith("#"):
            break
        elif l.startswith("#SBATCH"):
            c["set"].append(["?", l])
    return c


def run_case(c):
    d = os.path.join(W, "inputs")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    n = max(o["f"] for o in c["hist"])
    kinds, ev = {}, []
    for o in c["hist"]:
        e = dict(o, err="")

        def f():
            write(os.path.join(d, "f%d" % o["f"]), o["what"])
            kinds[o["f"]] = o["what"]["kind"]
            return {"read": [read(os.path.join(d, "f%d" % k), kinds[k]) if k in kinds else {} for k in range(1, n + 1)]}
        r, e["err"] = drv.attempt(f)
        e.update(r or {})
        ev.append(e)
        if e["err"]:
            break
    return {"init": n, "events": ev}


drv.main(run_case)
