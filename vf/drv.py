"""Helpers for drivers: they run inside /opt/venv against /repo and write one record per case."""
import contextlib, io, json, os, sys, traceback, warnings
warnings.filterwarnings("ignore")


def main(run_case):
    fi, fo = sys.argv[1], sys.argv[2]
    with open(fi) as fh, open(fo, "a") as oh:
        for line in fh:
            c = json.loads(line)
            rec = {"id": c["id"], "case": c}
            if "key" in c:
                rec["key"] = c["key"]
            rec.update(run_case(c))
            oh.write(json.dumps(rec) + "\n")
            oh.flush()


def attempt(fn):
    """(value, error text): an exception of the code under test is an observation, not a driver failure."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(), ""
    except BaseException as ex:      # noqa  (SystemExit, AssertionError ... all count)
        if isinstance(ex, KeyboardInterrupt):
            raise
        return None, "%s: %s" % (type(ex).__name__, str(ex)[:200])


def q(x, scale, tol=1e-9):
    """A float as an integer on the grid 1/scale; off-grid values come back as a large sentinel."""
    import math
    if isinstance(x, (str, bytes)):         # text is not a number
        return 999999997
    try:
        v = float(x) * scale
    except Exception:
        return 999999999
    if not math.isfinite(v) or abs(v) > 2e8:
        return 999999999
    r = round(v)
    if abs(v - r) > tol * max(1.0, scale):
        return 999999998
    return int(r)


def fx(x, scale):
    """A float as a fixed-point integer (rounded), for comparison within a tolerance in the specification."""
    import math
    if isinstance(x, (str, bytes)):         # text is not a number
        return 999999997
    try:
        v = float(x) * scale
    except Exception:
        return 999999999
    if not math.isfinite(v) or abs(v) > 9e8:
        return 999999999
    return int(round(v))
