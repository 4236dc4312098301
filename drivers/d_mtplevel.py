"""Replays enumeration requests through harness/mtp.cc."""
from vf import drv, ask

H = ask.Harness("mtp")


def run_case(c):
    if c["kind"] == "filter":
        line = "filter %d " % len(c["list"]) + " ".join(str(len(b)) + "".join(" %d %d" % tuple(p) for p in b) for b in c["list"])
        r, err = drv.attempt(lambda: H.ask(line))
        return {"events": [{"op": "filter", "list": c["list"], "err": err, "combs": r or []}]}
    evs = []
    r, err = drv.attempt(lambda: H.ask("schemes %d" % c["level"]))
    evs.append({"op": "schemes", "level": c["level"], "err": err, "combs": r or []})
    r, err = drv.attempt(lambda: H.ask("combs %d" % c["level"]))
    evs.append(dict({"op": "combs", "level": c["level"], "err": err}, **(r or {"combs": [], "max": 0, "size": 0, "nmus": 0, "nmusc": 0})))
    return {"events": evs}


drv.main(run_case)
