import os
from vf import build, core

CLS = {  # class -> (moves, mutates)
    "Structure": (0, 1), "BasicStructureInfo": (0, 0), "Supercell": (0, 0), "BinLinkedList": (0, 0), "NeighborList": (0, 0),
    "PairTildeR": (0, 0), "TildeR": (0, 0), "MtpSwitchFunc1": (0, 0), "MtpSwitchFunc2": (0, 0), "ChebyshevPoly": (1, 1),
    "MtpQ": (1, 1), "RB_Chebyshev": (1, 1), "RQ_Chebyshev": (1, 1), "MtpParam": (1, 0), "MtpMCoeffPair": (0, 0),
    "MtpMCoeffPairCombs": (0, 0)}
SRC = ["descriptor/mtp/src/mtpLevel.cc", "descriptor/mtpr/src/mtpParam.cc"]


def run(ctx):
    build.harness(ctx, "value", extra=[os.path.join(core.REPO, "source", s) for s in SRC],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                         "-include", "set", "-include", "unordered_map", "-include", "algorithm"])
    out = ctx.tlc("ValueMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT Types\nPROPERTY Frame\n"
                  "CONSTANT Slots = {1, 2%s}\n" % (", 3" if ctx.thorough else ""), workers=1)
    hist = ctx.cases(out)
    out = ctx.tlc("ValueMC", "INIT Init\nNEXT SimNext\nCHECK_DEADLOCK FALSE\nINVARIANT SimPrint\nCONSTANT Slots = {1, 2, 3}\n",
                  simulate=3000 if ctx.thorough else 300, depth=14)
    deep = ctx.cases(out)
    cases = []
    for cls, (mv, mu) in CLS.items():
        for h in hist + deep:
            ops = {o["op"] for o in h}
            if (not mv and ops & {"movenew", "moveassign"}) or (not mu and "mutate" in ops):
                h2 = [o for o in h if not (o["op"] == "mutate" and not mu)] if len(h) == 12 and not mu else h
                if not mv:
                    h2 = [dict(o, op={"movenew": "copynew", "moveassign": "assign"}.get(o["op"], o["op"])) for o in h2] if len(h) == 12 else h
                if h2 is h or not legal(h2):
                    continue
                cases.append({"cls": cls, "hist": h2})
                continue
            cases.append({"cls": cls, "hist": h})
    ctx.log("cases:", len(cases))
    tr = ctx.drive("d_value", cases)
    ctx.judge("ValueTrace", tr, " Slots = {1, 2, 3}\n")


def legal(h):
    s = {}
    for o in h:
        a, b, op = o["a"], o["b"], o["op"]
        if op in ("new", "default"):
            if a in s:
                return False
            s[a] = "L"
        elif op in ("copynew", "movenew"):
            if a in s or s.get(b) != "L":
                return False
            s[a] = "L"
            if op == "movenew":
                s[b] = "M"
        elif op in ("assign", "moveassign"):
            if a not in s or s.get(b) != "L":
                return False
            s[a] = "L"
            if op == "moveassign" and a != b:
                s[b] = "M"
        elif op == "mutate":
            if s.get(a) != "L":
                return False
        else:
            if a not in s:
                return False
            del s[a]
    return True
