---------------------------- MODULE AtomConfigTrace ----------------------------
EXTENDS VFTrace, AtomConfig
MInit(t) == [p \in {"a", "b"} |-> <<>>]
MStep(s, e) == CASE e.op = "put" -> [s EXCEPT ![e.p] = e.lines]
                 [] e.op = "write" -> [s EXCEPT ![e.p] = WriteLines(e.s, e.mag)]
                 [] e.op = "copy" -> [s EXCEPT ![e.q] = WriteLines([lat |-> ReadLattice(s[e.p]), z |-> ReadZ(s[e.p]), f |-> ReadF(s[e.p]), m |-> <<>>], FALSE)]
                 [] OTHER -> s
Fail(b, name) == IF b THEN {} ELSE {name}
MFail(s, e) ==
  IF e.op = "put" THEN {} ELSE
  IF e.op = "tables" THEN Fail(e.bad = <<>>, "element tables are mutual inverses over 0..118") ELSE
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  CASE e.op = "write" -> Fail(Says(e.got, e.s, e.mag), "the file says what the structure is")
    [] e.op = "copy" -> Fail(Says(e.got, [lat |-> ReadLattice(s[e.p]), z |-> ReadZ(s[e.p]), f |-> ReadF(s[e.p])], FALSE), "a structure read and written again is the same")
    [] OTHER ->
       Fail(e.lat = ReadLattice(s[e.p]), "the lattice is read as written") \cup Fail(e.z = ReadZ(s[e.p]), "the species are read as written")
       \cup Fail(e.f = ReadF(s[e.p]), "the positions are read as written")
       \cup (IF "n" \in DOMAIN e THEN Fail(e.n = Count(s[e.p]), "the number of atoms is read as written") ELSE {})
       \cup (IF "m" \in DOMAIN e THEN Fail(e.m = (IF e.m = <<>> /\ ~Has(s[e.p], "magnetic") THEN <<>> ELSE ReadMag(s[e.p])), "the moments are read as written, none meaning zero") ELSE {})
       \cup (IF "force" \in DOMAIN e THEN Fail(e.force = ReadForce(s[e.p]), "the forces are read as written, none meaning zero") ELSE {})
       \cup (IF "stress" \in DOMAIN e THEN Fail(e.stress = (IF HasStress(s[e.p]) THEN ReadStress(s[e.p]) ELSE <<>>), "the stress is read as written") ELSE {})
=============================================================================
