-------------------------------- MODULE InferMC --------------------------------
(* Sessions of extracting checkpoints into files and reading files back. *)
EXTENDS Infer, Json
CONSTANTS Depth, Files
VARIABLES ck, hist, phase
R(S) == RandomElement(S)
Ws(n) == [l \in 1..n |-> R(1..4)]
Sub(n) == {l \in 1..n : R(1..2) = 1}
Ckpt(t) == LET e == [nets |-> R({R(1..4), R(1..12)}), w |-> Ws(R({R(1..4), R(1..4), R(1..12)})), in |-> 1, res |-> {}]
               m2 == R(1..3)
           IN [e |-> [e EXCEPT !.res = Sub(Len(e.w))], f |-> [nets |-> R({R(1..3), R(1..12)}), w |-> Ws(R({R(1..4), R(1..4), R(1..12)})), in |-> m2 * e.w[Len(e.w)], res |-> {}]]
Res(c) == [c EXCEPT !.f.res = Sub(Len(c.f.w))]
Init == ck = <<>> /\ hist = <<>> /\ phase = "go"
Train == phase = "go" /\ Len(ck) < 3 /\ (ck = <<>> \/ R(1..3) = 1) /\ \E c \in {Ckpt(1)} : (\E d \in {Res(c)} : ck' = Append(ck, d)) /\ UNCHANGED <<hist, phase>>
Save == phase = "go" /\ ck # <<>> /\ Len(hist) < Depth /\ (\E k \in {R(1..Len(ck))}, f \in {R(1..Files)} : hist' = Append(hist, [op |-> "save", k |-> k, f |-> f])) /\ UNCHANGED <<ck, phase>>
Finish == phase = "go" /\ Len(hist) = Depth /\ phase' = "done" /\ UNCHANGED <<ck, hist>>
Retry == phase = "go" /\ UNCHANGED <<ck, hist, phase>>
Next == Train \/ Save \/ Finish \/ Retry
(* names are not shared, and the sizes account for every descriptor entry *)
Named == \A k \in 1..Len(ck) : LegalC(ck[k]) /\ M1(ck[k]) * M2(ck[k]) = ck[k].f.in /\ Cardinality({a.name : a \in Held(ck[k])}) = Cardinality(Held(ck[k]))
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([ck |-> [k \in 1..Len(ck) |-> [e |-> ck[k].e, f |-> ck[k].f, held |-> Held(ck[k])]], hist |-> hist]))
=============================================================================
