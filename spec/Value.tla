-------------------------------- MODULE Value --------------------------------
(* Value semantics of an object that owns storage.  A slot holds nothing, a live value, or an     *)
(* object whose value was moved away.  A value is (p, m): made from parameter set p (0 = default   *)
(* constructed), mutated in place or not.  Copies are independent: an operation on one slot never  *)
(* changes what another slot shows; an assignment - from itself included - leaves the target equal *)
(* to the source and answers the target.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Slots
None == [k |-> "none", p |-> 0, m |-> 0]
Moved == [k |-> "moved", p |-> 0, m |-> 0]
Live(p, m) == [k |-> "live", p |-> p, m |-> m]
IsLive(s, i) == s[i].k = "live"
Full(s, i) == s[i].k # "none"

Enabled(s, o) ==
  CASE o.op = "new" -> ~Full(s, o.a)
    [] o.op = "default" -> ~Full(s, o.a) /\ o.b = 1
    [] o.op = "copynew" -> ~Full(s, o.a) /\ IsLive(s, o.b)
    [] o.op = "movenew" -> ~Full(s, o.a) /\ IsLive(s, o.b)
    [] o.op = "assign" -> Full(s, o.a) /\ IsLive(s, o.b)
    [] o.op = "moveassign" -> Full(s, o.a) /\ IsLive(s, o.b)
    [] o.op = "mutate" -> IsLive(s, o.a) /\ s[o.a].p >= 1 /\ s[o.a].m = 0 /\ o.b = 1
    [] o.op = "drop" -> Full(s, o.a) /\ o.b = 1
    [] OTHER -> FALSE
Apply(s, o) ==
  CASE o.op = "new" -> [s EXCEPT ![o.a] = Live(o.b, 0)]
    [] o.op = "default" -> [s EXCEPT ![o.a] = Live(0, 0)]
    [] o.op = "copynew" -> [s EXCEPT ![o.a] = s[o.b]]
    [] o.op = "movenew" -> [s EXCEPT ![o.a] = s[o.b], ![o.b] = Moved]
    [] o.op = "assign" -> [s EXCEPT ![o.a] = s[o.b]]
    [] o.op = "moveassign" -> IF o.a = o.b THEN s ELSE [s EXCEPT ![o.a] = s[o.b], ![o.b] = Moved]
    [] o.op = "mutate" -> [s EXCEPT ![o.a] = Live(s[o.a].p, 1)]
    [] o.op = "drop" -> [s EXCEPT ![o.a] = None]
    [] OTHER -> s
OpNames == {"new", "default", "copynew", "movenew", "assign", "moveassign", "mutate", "drop"}
AllOps == [op : OpNames, a : Slots, b : Slots]
=============================================================================
