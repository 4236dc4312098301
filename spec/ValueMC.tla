------------------------------- MODULE ValueMC -------------------------------
(* Every transition of the value model on a few slots, each printed with a shortest history that  *)
(* reaches it.  Frame: an operation changes only its target (and a moved-from source).            *)
EXTENDS Value, TLC, Json
VARIABLES slots, hist
Init == slots = [i \in Slots |-> None] /\ hist = <<>>
Par == {1, 2}
Do(o) == /\ (o.op \in {"new"} => o.b \in Par) /\ Enabled(slots, o)
         /\ slots' = Apply(slots, o) /\ hist' = Append(hist, o)
         /\ PrintT("VFCASE " \o ToJson(hist'))
Next == \E o \in AllOps : Do(o)
View == slots
Frame == [][ \A i \in Slots : slots'[i] # slots[i] =>
              LET o == hist'[Len(hist')] IN i = o.a \/ (o.op \in {"movenew", "moveassign"} /\ i = o.b) ]_<<slots, hist>>
Types == \A i \in Slots : slots[i] \in {None, Moved} \cup {Live(p, m) : p \in 0..2, m \in 0..1}
Lim == Len(hist) < 12
\* the same walk, at random and deeper (simulation): the history is printed when it has the wanted length
SimNext == \E o \in AllOps : /\ (o.op = "new" => o.b \in Par) /\ Len(hist) < 12 /\ Enabled(slots, o)
                             /\ slots' = Apply(slots, o) /\ hist' = Append(hist, o)
SimPrint == Len(hist) = 12 => PrintT("VFCASE " \o ToJson(hist))
=============================================================================
