----------------------------- MODULE BandsTrace -----------------------------
EXTENDS VFTrace, Bands
MInit(t) == t.init
MStep(s, e) == s
Fail(b, name) == IF b THEN {} ELSE {name}
Entries(x) == {<<IF x.spins[i] = "up" THEN 1 ELSE IF x.spins[i] = "down" THEN 2 ELSE 3, x.kpts[i], x.bands[i]>> : i \in 1..Len(x.kpts)}
Edge(r, e, v, name) ==
  IF Metal(r) THEN Fail(e.metal, name \o ": a metal has none") ELSE
  IF e.metal THEN {name \o ": found in every semiconductor"} ELSE
  LET n == Len(e.energies) IN
  Fail(\A i \in 1..n : e.energies[i] = v, name \o ": its energy")
  \cup Fail(n > 0 /\ Len(e.kpts) = n /\ Len(e.bands) = n /\ Len(e.spins) = n /\ Cardinality(Entries(e)) = n /\ Entries(e) \in EdgeSets(r, v),
            name \o ": exactly the states of the edge's k-point that share it, each once")
MFail(r, e) ==
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  CASE e.op = "counts" -> Fail(e.nk = NK(r) /\ e.nb = NB(r) /\ e.inatom, "number of k-points and bands, name of the input structure")
    [] e.op = "eig" -> Fail(e.up = r.eig[1] /\ e.down = (IF Len(r.eig) = 2 THEN r.eig[2] ELSE <<>>), "every eigen energy at its spin, k-point and band")
    [] e.op = "fermi" -> Fail(e.reply = Fermi3(r), "the Fermi energy in eV, rounded to three decimals")
    [] e.op = "cbm" -> Edge(r, e, CBM(r), "conduction band minimum")
    [] e.op = "vbm" -> Edge(r, e, VBM(r), "valence band maximum")
    [] e.op = "gap" -> Fail(e.reply = Gap(r), "the gap is the distance of the edges")
    [] e.op = "type" -> Fail(e.reply \in Types(r), "direct exactly if the edges share a k-point")
=============================================================================
