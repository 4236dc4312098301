"""Writes template files from the specification's records and reads them, and the shipped ones, through harness/mtp.cc."""
import os, re, tempfile
from vf import drv, ask

H = ask.Harness("mtp")
TMP = os.environ["VF_DIR"]
NAMES = ["alpha_moments_count", "alpha_index_basic_count", "alpha_index_basic", "alpha_index_times_count", "alpha_index_times", "alpha_scalar_moments", "alpha_moment_mapping"]
HEAD = ["MTP", "version = 1.1.0", "", "potential_tag = ", "\tmin_dist = 2", "alpha_moments_count = 77", "radial_coeffs = {{1, 2}, {3}}", "x" * 4500]
TAIL = ["", "\n", "\nspecies_coeffs = {1.0e+00, -2.5e-01}\nmoment_coeffs = {0, 1}\n", "\n\n\n"]


def quads(a):
    return "{" + ", ".join("{%d, %d, %d, %d}" % tuple(q) for q in a) + "}"


def pieces(c, short=0):
    """Name and value of each field."""
    cut = lambda f, a: a[:-1] if short == f else a
    vals = [str(c["nm"]), str(len(c["basic"])), quads(cut(3, c["basic"])), str(len(c["times"])), quads(cut(5, c["times"])), str(len(c["map"])),
            "{" + ", ".join(map(str, cut(7, c["map"]))) + "}"]
    return list(zip(NAMES, vals))


def text(c, d, head, tail):
    eol, ind = ("\n", "\r\n")[tail % 2], ("", "\t")[head[0] % 2]      # the shipped templates have both line ends and an indented field
    s = "".join(HEAD[h] + eol for h in head)
    f = d["field"]
    for k, (n, v) in enumerate(pieces(c, f if d["kind"] == "short" else 0), 1):
        if d["kind"] == "cut" and k == f:
            return s
        if d["kind"] == "name" and k == f:
            n = n[:-1]
        if d["kind"] == "cutin" and k == f:
            return s + n + " = " + (v[:-1] if k in (3, 5, 7) else "")
        s += (ind if k in (1, 4) else "") + n + " = " + v + (eol if k < 7 else "")
    return s + (TAIL[tail] if tail < 4 else "")


def load(s):
    path = os.path.join(TMP, "t.%d.almtp" % os.getpid())
    if os.path.exists(path):
        os.remove(path)
    if s is not None:
        with open(path, "w") as f:
            f.write(s)
    r, err = drv.attempt(lambda: H.ask("param " + path))
    if not err:
        err = r["err"]
    return (r or {}).get("p"), err


EMPTY = {"nm": 0, "nb": 0, "basic": [], "nt": 0, "times": [], "ns": 0, "map": []}


def written(c):
    s = None if c["d"]["kind"] == "absent" else text(c["c"], c["d"], c["head"], c["tail"])
    p, err = load(s)
    evs = [{"op": "read", "c": c["c"], "d": c["d"], "err": err, "p": p or EMPTY}]
    if c["d"]["kind"] == "none" and c.get("cuts") and len(s) < 30000:
        whole = text(c["c"], c["d"], [c["head"][0] % 2] * 10, 4 + c["tail"] % 2)
        step = c["cuts"]
        for k in range(0, len(whole), step):
            p, err = load(whole[:k])
            if err != "MtpException" or k + step >= len(whole):      # the others are alike
                evs.append({"op": "cut", "k": k, "err": err or "none"})
    return evs


def shipped(c):
    s = open(c["path"]).read()
    num = lambda n: int(re.search(r"^\s*%s = (\d+)" % n, s, re.M).group(1))
    ints = lambda n: [int(x) for x in re.findall(r"-?\d+", re.search(r"^\s*%s = (.*)" % n, s, re.M).group(1))]
    four = lambda a: [a[i:i + 4] for i in range(0, len(a), 4)]
    want = {"nm": num(NAMES[0]), "basic": four(ints(NAMES[2])), "times": four(ints(NAMES[4])), "map": ints(NAMES[6])}
    want.update(nb=num(NAMES[1]), nt=num(NAMES[3]), ns=num(NAMES[5]))
    r, err = drv.attempt(lambda: H.ask("param " + c["path"]))
    err = err or r["err"]
    p = (r or {}).get("p") or EMPTY
    evs = [{"op": "part", "err": err, "have": [p[k] for k in ("nm", "nb", "nt", "ns")] + [len(p[k]) for k in ("basic", "times", "map")],
            "want": [want[k] for k in ("nm", "nb", "nt", "ns")] + [len(want[k]) for k in ("basic", "times", "map")]}]
    for k in ("basic", "times", "map"):
        for i in range(0, len(want[k]), 400):
            evs.append({"op": "part", "err": err, "have": p[k][i:i + 400], "want": want[k][i:i + 400]})
    if c["program"]:
        evs.append({"op": "program", "err": err, "c": {k: p[k] for k in ("nm", "basic", "times", "map")}})
    return evs


def run_case(c):
    return {"events": shipped(c) if c["kind"] == "shipped" else written(c)}


drv.main(run_case)
