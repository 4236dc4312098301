"""Replays histories of construct / copy / assign / move / mutate / drop through the C++ classes (harness/value.cc)."""
import json, os, subprocess
from vf import drv

EXE = os.path.join(os.environ["VF_DIR"], "bin", "value")
P = None
HEAD = "MTP\n" + "".join("line %d\n" % i for i in range(9))


def param(path, nm, basic, times, mapping):
    br = lambda rows: "{" + ", ".join("{" + ", ".join(map(str, r)) + "}" for r in rows) + "}"
    with open(path, "w") as fh:
        fh.write(HEAD + "alpha_moments_count = %d\nalpha_index_basic_count = %d\nalpha_index_basic = %s\n"
                 "alpha_index_times_count = %d\nalpha_index_times = %s\nalpha_scalar_moments = %d\nalpha_moment_mapping = {%s}\n"
                 % (nm, len(basic), br(basic), len(times), br(times), len(mapping), ", ".join(map(str, mapping))))


def ask(line):
    global P
    if P is None:
        w = os.environ["VF_WORK"]
        a, b = os.path.join(w, "a.almtp"), os.path.join(w, "b.almtp")
        param(a, 5, [[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0]], [[0, 0, 1, 3], [1, 2, 3, 4]], [0, 3, 4])
        param(b, 9, [[0, 0, 0, 0], [0, 2, 0, 0], [0, 1, 1, 0], [1, 0, 0, 1], [0, 0, 0, 2]], [[0, 0, 1, 5], [1, 2, 3, 6], [3, 4, 1, 7]], [0, 5, 6, 7])
        P = subprocess.Popen([EXE, a, b], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    P.stdin.write(line + "\n")
    P.stdin.flush()
    r = P.stdout.readline()
    if not r.endswith("\n"):
        P.stdin.close()
        raise SystemExit("harness ended: " + P.stderr.read()[:1500])
    return json.loads(r)


def run_case(c):
    h = c["hist"]
    r = ask("%s %d %s" % (c["cls"], len(h), " ".join("%s %d %d" % (o["op"], o["a"], o["b"]) for o in h)))
    return {"init": {"refs": r["refs"]},
            "events": [dict(o, self=x[0], obs=x[1:]) for o, x in zip(h, r["obs"])] + [{"op": "end", "left": r["left"]}]}


drv.main(run_case)
