------------------------------ MODULE ValueTrace ------------------------------
(* A recorded history of one class: trace.init.refs[p+1][m+1] is what a freshly made value shows. *)
EXTENDS VFTrace, Value
MInit(t) == [s |-> [i \in Slots |-> None], refs |-> t.init.refs]
MStep(x, e) == IF e.op = "end" THEN x ELSE [x EXCEPT !.s = Apply(x.s, e)]
(* left: the bytes still held when every object of a repeated history has been destroyed *)
MFail(x, e) ==
  IF e.op = "end" THEN (IF e.left = 0 THEN {} ELSE {"destroying every object gives all memory back"}) ELSE
  LET n == Apply(x.s, e)
      shows(i) == e.obs[i] = x.refs[n[i].p + 1][n[i].m + 1]
      wrong == {i \in Slots : n[i].k = "live" /\ ~shows(i)}
  IN (IF Enabled(x.s, e) THEN {} ELSE {"machinery: operation not enabled"})
     \cup (IF e.self = 1 THEN {} ELSE {"an assignment answers its target"})
     \cup (IF e.a \in wrong THEN {"the target of " \o e.op \o " shows the value it was given"} ELSE {})
     \cup (IF wrong \ {e.a} # {} THEN {"another object keeps its value through " \o e.op} ELSE {})
=============================================================================
