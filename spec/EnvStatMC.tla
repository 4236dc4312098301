------------------------------ MODULE EnvStatMC ------------------------------
(* Arrays to take statistics of: rows of four multiples of 1/64, nearly constant ones included, single and several frames. *)
EXTENDS EnvMat, TLC, Json
VARIABLES phase, a, da, shape, avg, std
R(S) == RandomElement(S)
Num(k) == IF k = 1 THEN R(-60..60) ELSE IF k = 2 THEN R(7..8) ELSE IF k = 3 THEN 5 ELSE R({0, 0, 0, 3, -64, 64})
Init == phase = "shape" /\ a = <<>> /\ da = <<>> /\ shape = <<>> /\ avg = <<>> /\ std = <<>>
Shape == /\ phase = "shape" /\ phase' = "fill" /\ \E s \in {IF R(1..2) = 1 THEN <<R(1..4), R(1..5)>> ELSE <<R(1..3), R(1..3), R(1..3)>>} : shape' = s
         /\ UNCHANGED <<a, da, avg, std>>
Size == IF Len(shape) = 2 THEN shape[1] * shape[2] ELSE shape[1] * shape[2] * shape[3]
Fill == /\ phase = "fill" /\ phase' = "done" /\ UNCHANGED shape
        /\ \E k \in {R(1..4)}, l \in {R(1..4)}, sz \in {Size} :
             \E m \in {[i \in 1..sz |-> <<Num(k), Num(l), Num(l), Num(l)>>]} : a' = m
        /\ \E sz \in {12 * Size} : \E m \in {[i \in 1..sz |-> R(-9..9)]} : da' = m
        /\ avg' = <<R(-20..20), R(-3..3), R(-3..3), R(-3..3)>> /\ std' = <<R(0..4), R(0..4), R(0..4), R(0..4)>>
Next == Shape \/ Fill
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([a |-> a, da |-> da, shape |-> shape, avg |-> avg, std |-> std]))
=============================================================================
