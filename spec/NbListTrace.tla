----------------------------- MODULE NbListTrace -----------------------------
EXTENDS VFTrace, NbList
CONSTANT Prop

(* The neighbour list keeps no state between calls: the state is the number of queries served. *)
(* op "query": the compiled Python extension; op "nl": the C++ class and its flat table.       *)
MInit(x) == 0
MStep(s, e) == s + 1
SpeciesOk(e) == \A i \in 1..Len(e.nz) : \A k \in 1..Len(e.nz[i]) : e.firstneigh[i][k] + 1 \in 1..Len(e.qy.z) => e.nz[i][k] = e.qy.z[e.firstneigh[i][k] + 1]
FlatAgrees(e) == /\ e.flat.numneigh = e.numneigh
                 /\ \A i \in 1..Len(e.numneigh) : \A k \in 1..e.numneigh[i] :
                       k <= Len(e.flat.firstneigh[i]) /\ e.flat.firstneigh[i][k] = e.firstneigh[i][k] /\ e.flat.rel[i][k] = e.rel[i][k]
MFail(s, e) ==
  IF e.op = "query" THEN
    IF e.err # "" THEN {"a query inside the documented domain is answered"}
    ELSE IF Prop = "P01" THEN FailExact(e.qy, e)
    ELSE FailTable(e.qy, e) \cup (IF e.kept = 0 THEN {} ELSE {"a reply that is dropped gives its memory back"})
  ELSE
    IF Prop = "P01" THEN FailExact(e.qy, e) \cup (IF SpeciesOk(e) THEN {} ELSE {"a listed image has its owner's species"})
    ELSE LET f == FailTable(e.qy, e.flat) IN f \cup (IF f # {} \/ FlatAgrees(e) THEN {} ELSE {"the flat table and the list say the same"})
=============================================================================
