"""Replays sessions on vectors, arrays and tables through harness/core.cc."""
import re
from vf import drv, ask

H = ask.Harness("core")


def line(o):
    z = lambda k: str(o[k] - 1)
    op = o["op"]
    if op == "set":
        return " ".join([op, z("i")] + [str(x) for x in o["x"]])
    if op in ("put", "write"):
        return " ".join([op, z("i"), z("k"), str(o["n"])])
    if op == "table":
        return " ".join([op, str(len(o["dim"]))] + [str(x) for x in o["dim"]] + [str(int(o["zero"]))])
    if op == "fill":
        return " ".join([op] + [str(x - 1) for x in o["at"]] + [str(o["n"])])
    return " ".join([op] + [z(k) for k in ("i", "j", "k") if k in o] + ([str(o["n"])] if "n" in o else []))


def run_case(c):
    ev = []
    _, err = drv.attempt(lambda: H.ask("start %d %d %s" % (c["nv"], c["na"], "df"[c["id"] % 2] if isinstance(c["id"], int) else "d")))
    assert not err, err
    for o in c["hist"]:
        def go():
            r = H.ask(line(o))
            i = lambda a: [drv.q(x, 1) for x in a]
            out = {"v": [i(x) for x in r["v"]], "a": [[drv.fx(y, 1) for y in x] for x in r["a"]], "aligned": r["aligned"], "t": [drv.fx(x, 1) for x in r["t"]]}
            if o["op"] == "plain":
                l = r["out"][3]
                out["out"] = i(r["out"][:3]) + [drv.q(l * l, 1)]
                u = r["unit"]
                out["unit"] = [] if l == 0 else [i([x * l for x in u]), drv.q(sum(x * x for x in u), 1)]
            elif "out" in r:
                out["out"] = i(r["out"])
            for k in ("txt", "bytes"):
                if k in r:
                    out[k] = re.sub(r"(?<![\w.])-0(?![\w.])", "0", r[k]) if k == "txt" else r[k]      # -0 is 0
            return out
        r, err = drv.attempt(go)
        ev.append(dict(o, err=err, **(r or {})))
        if err:
            break
    if not ev[-1]["err"]:
        _, err = drv.attempt(lambda: H.ask("end"))
        ev.append({"op": "end", "err": err})
    return {"init": {"nv": c["nv"], "na": c["na"]}, "events": ev}


drv.main(run_case)
