----------------------------- MODULE PerturbTrace -----------------------------
EXTENDS VFTrace, Perturb
(* event of operation number e.of on structure e.k (batch operations give one event per directory) *)
MInit(t) == [s |-> t.init, files |-> [k \in 1..Len(t.init) |-> 0]]
MStep(x, e) == IF e.op = "batch" /\ e.f >= 0 /\ e.d >= 0 THEN [x EXCEPT !.files[e.k] = IF e.n > @ THEN e.n ELSE @] ELSE x
Alike(a, b) == a.e = b.e /\ a.u = b.u
MFail(x, e) ==
  IF e.op = "many" THEN
       Fail(\A i \in 1..Len(e.bins) : Abs(10 * e.bins[i] - e.total) * 100 <= 60 * e.total, "diagonal deformations fill their range evenly")
  \cup Fail(\A i \in 1..Len(e.obins) : Abs(10 * e.obins[i] - e.total) * 100 <= 60 * e.total, "the others fill theirs")
  \cup Fail(Abs(e.ms - 1000) <= 120, "the mean square displacement is the distance squared")
  \cup Fail(\A k \in 1..3 : Abs(e.mean[k]) <= 100 /\ Abs(e.var[k] - 333) <= 60, "displacements have no direction")
  \cup Fail(\A k \in 1..Len(e.corr) : Abs(e.corr[k]) <= 200, "the six deformations and the three components are drawn independently")
  ELSE IF e.f < 0 \/ e.d < 0 THEN Fail(e.err # "", "negative settings are refused") ELSE
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  Fail(e.same, "the structure perturbed stays as it was")
  \cup Fail(Len(e.copies) = e.n, "as many copies as asked for")
  \cup UNION {CopyFail(x.s[e.k], e.copies[k], e.f, e.d, IF e.op = "batch" THEN 4 ELSE 0) : k \in 1..Len(e.copies)}
  \cup Fail(e.op = "batch" => e.listed = MStep(x, e).files[e.k], "one file per copy, numbered from 0")
  \cup (IF e.op = "batch" THEN {} ELSE
        Fail(e.f + e.d = 0 \/ \A a, b \in 1..Len(e.copies) : a = b \/ ~Alike(e.copies[a], e.copies[b]), "copies are drawn anew")
        \cup Fail(e.d = 0 \/ \A a \in 1..Len(e.copies) : \A i, j \in 1..Len(x.s[e.k].z) : i = j \/ e.copies[a].u[i] # e.copies[a].u[j], "atoms are displaced each on its own"))
=============================================================================
