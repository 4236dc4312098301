"""Rewrites the last part of DESIGN.md (planted bugs, repaired defects, out of scope) from seeded/ and known_findings.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n## Planted bugs\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.find(MARK)
s = (s if i < 0 else s[:i]).rstrip("\n") + "\n" + MARK
s += """
Each was written from the property and the code, confirmed in a scratch copy (builds, stable tests pass, demo fails) and
then put to the checks. The check of the property named catches every one listed, in the quick tier.

| bug | property | needs | note |
|---|---|---|---|
"""
MISSED = {"b15-formula-prefix": "missed at first: compositions never continued one another; the generator now draws such formulas",
          "b18-equal-columns": "missed at first: densities were drawn all different; equal and zero columns are now drawn"}
MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"))))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    b = os.path.basename(d)
    s += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), MISSED.get(b, ""))
s += """
Besides these, single-line mutations of the files named in each property were run against its check while it was being
written (about ten per property); what survived was either equivalent or led to a stronger generator.

## Defects found and repaired

Every one was first shown by its check on the unchanged tree (failing input against the real code), then repaired by a
minimal "fix:" commit. No finding is left open, so no KNOWN-FINDING line is printed.

"""
for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    pr, h, t = f.split("property=")[1].split(" ", 2)
    s += "- %s `%s` %s\n" % (pr, h, t)
s += """
## Out of scope, and why

- `CpuNeighborList` (source/nblist) is unfinished and commented out of its CMakeLists; `mtp/level.h` is a prototype nothing uses.
- CUDA code paths (.cu files, device "cuda") cannot run here.
- `Job` with options left at None writes the text None; the documentation does not say what should happen.
- `PerturbStructure` on left-handed cells fails an assertion by design of its rotation step.
- Plotting (matplotlib figures) is judged only through the numbers it is made from; POSCAR/cif parsing is pymatgen's.
- Code that calls PWmat, slurm or web services (subprocess, network) has nothing to run against.
- Distances exactly at a cutoff: floating point decides; the grid keeps half a unit away from it.
"""
open(p, "w").write(s)
