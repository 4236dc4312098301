"""atom.config text from and to the specification's lines, independent of the code under test."""
import random
UNIT = {"lattice": 10**4, "position": 10**6, "force": 10**6, "magnetic": 10**2, "energy": 10**4, "velocity": 10**6}
TITLE = {"lattice": "Lattice vector (Angstrom)", "position": "Position (normalized), move_x, move_y, move_z",
         "force": "Force (eV/Angstrom)", "magnetic": "Magnetic",
         "energy": "Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06", "velocity": "Velocity (bohr/fs)"}


def num(n, unit, rnd):
    d = len(str(unit)) - 1
    k = rnd.randrange(4)
    if k == 0:
        return "%.*f" % (d, n / unit)
    if k == 1:
        return "%.*f" % (d + 3, n / unit)
    if k == 2:
        return "%.12E" % (n / unit)
    # 0.dddE+xx, as PWmat prints
    if n == 0:
        return "0.0000000000E+00"
    s, e, v = ("-" if n < 0 else ""), 0, abs(n) / unit
    while v >= 1:
        v /= 10; e += 1
    while v < 0.1:
        v *= 10; e -= 1
    return "%s%.12fE%s%02d" % (s, v, "-" if e < 0 else "+", abs(e))


def render(lines, seed, stress_unit=1000, extra=True):
    rnd = random.Random(seed)
    case = rnd.choice([str, str.upper, str.lower, str.title])
    out, sec = [], None
    sp = rnd.choice(["  ", " ", "        ", "\t"])
    for l in lines:
        if l["k"] == "count":
            out.append(rnd.choice(["  ", "", "    "]) + "%d " % l["n"] + case("atoms") + (rnd.choice(["", ",Iteration (fs) =  0.1E+01", "   "]) if extra else ""))
        elif l["k"] == "head":
            sec = l["sec"]
            out.append(rnd.choice(["", " "]) + case(TITLE[sec]))
        elif sec == "lattice":
            v = [num(x, UNIT[sec], rnd) for x in l["v"][:3]]
            if len(l["v"]) == 6:
                v += ["stress", "(eV):"] + [num(x, stress_unit, rnd) for x in l["v"][3:]]
            out.append(sp + sp.join(v))
        else:
            v = [str(l["z"])] + [num(x, UNIT[sec], rnd) for x in l["v"]]
            if sec == "position":
                v += [rnd.choice("01") for _ in range(3)]
            out.append(sp + sp.join(v))
    return "\n".join(out) + rnd.choice(["\n", "\n", "\n\n"])


def parse(text, q):
    """Lines of a text the code wrote; None for one that cannot be read."""
    res, sec = [], None

    def num(x, u):
        try:
            return q(float(x), u)
        except ValueError:
            return q(x, u)
    for raw in text.splitlines():
        t = raw.split()
        if not t:
            continue
        if not res:
            res.append({"k": "count", "n": int(t[0]) if t[0].isdigit() and len(t) > 1 and t[1].lower().startswith("atoms") else -1})
            continue
        hit = [s for s in UNIT if t[0].lower().startswith(s)]
        if hit:
            sec = hit[0]
            res.append({"k": "head", "sec": sec})
        elif sec == "lattice":
            res.append({"k": "row", "z": 0, "v": [num(x, UNIT[sec]) for x in t]})
        elif sec:
            res.append({"k": "row", "z": int(t[0]), "v": [num(x, UNIT[sec]) for x in t[1:4]]})
    return res


def movement(frames, seed, scf=True, old=False):
    """The texts of the frames of a MOVEMENT file, separators included."""
    rnd = random.Random(seed)
    res = []
    md = random.Random(repr(seed) + "md").random() < 0.3        # the lines molecular dynamics adds below the header
    for fr in frames:
        body = render(fr["lines"], rnd.random(), extra=False).rstrip("\n").split("\n")
        n = fr["lines"][0]["n"]
        it = num(rnd.choice([1, 1, -1]) * 10 ** 4 * fr["it"], 10 ** 4, rnd)
        en = "".join("   " + num(x, 10 ** 4, rnd) for x in fr["e"])
        if old:
            body[0] = "   %d atoms,Iteration=    %s, Etot,Ep,Ek=%s" % (n, it, en)
        else:
            body[0] = "   %d atoms,Iteration (fs) =    %s, Etot,Ep,Ek (eV) =%s" % (n, it, en)
            if scf:
                body[0] += ", SCF =   %d" % rnd.randint(1, 99)
        if md:
            body[1:1] = [" MD_INFO: METHOD(1-VV,2-NH,3-LV,4-LVPR,5-NHRP) TIME(fs) TEMP(K) DESIRED_TEMP(K) AVE_TEMP(K) TIME_INTERVAL(fs) TOT_TEMP(K)",
                         "          1   0.%d000000E+01   0.300%d00E+03   0.300000E+03   0.29%d000E+03   0.100E+01   0.298%d00E+03" % tuple(rnd.randint(1, 9) for _ in range(4)),
                         " MD_VV_INFO: Basic Velocity Verlet Dynamics (NVE), Initialized total energy(Hartree)", "          -0.105%d4281E+04" % rnd.randint(0, 9)]
        body.append(rnd.choice([" ", ""]) + "-" * rnd.choice([38, 50, 80]))
        res.append("\n".join(body) + "\n")
    return res
