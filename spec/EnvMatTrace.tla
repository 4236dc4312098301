----------------------------- MODULE EnvMatTrace -----------------------------
(* Environment matrices are functions of their arguments: the state is the number of matrices judged. *)
EXTENDS VFTrace, EnvMat
MInit(x) == 0
MStep(s, e) == s + 1
(* what the driver found beyond fixed point: the worst difference from the row of the neighbour a slot names, in 1e-12 *)
FailFine(e) == IF "fine" \in DOMAIN e /\ e.fine > 1000 THEN {"double precision rows and derivatives are exact to nine digits"} ELSE {}
MFail(s, e) == FailFine(e) \cup IF e.op = "table" THEN FailTable(e.q, e)
               ELSE FailCrystal(e.qy, e) \cup (IF e.auto = 0 \/ e.sel = CrystalWidths(e.qy, e.no, IF e.auto = 2 THEN {i \in 1..Len(e.qy.z) : e.qy.z[i] = e.co[1]} ELSE 1..Len(e.qy.z)) THEN {} ELSE {"automatic widths are the largest neighbour counts"})
=============================================================================
