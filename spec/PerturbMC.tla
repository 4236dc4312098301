------------------------------ MODULE PerturbMC ------------------------------
(* One to three structures (right-handed cells in tenths of an angstrom, positions in 1/24) and sessions of perturbing and storing them. *)
EXTENDS Perturb, TLC, Json
CONSTANTS MaxAtoms, Depth
VARIABLES st, hist, phase
R(S) == RandomElement(S)
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET y == R(S) IN <<y>> \o Perm(S \ {y})
Some(S) == LET T == {y \in S : R(1..3) > 1} IN IF T = {} THEN S ELSE T
RL(i) == R({0, R(-15..15)})
Init == st = <<>> /\ hist = <<>> /\ phase = "cell"
Cell == /\ phase = "cell" /\ \E n \in {R(1..MaxAtoms)}, L \in {<< <<R(25..80), RL(1), RL(2)>>, <<RL(3), R(25..80), RL(4)>>, <<RL(5), RL(6), R(25..80)>> >>}, p \in {R(1..6)} :
             LET M == CASE p = 1 -> <<L[2], L[3], L[1]>> [] p = 2 -> <<L[3], L[1], L[2]>> [] p = 3 -> << <<-L[1][1], -L[1][2], -L[1][3]>>, <<-L[2][1], -L[2][2], -L[2][3]>>, L[3] >> [] OTHER -> L
             IN st' = Append(st, [lat |-> M, z |-> [i \in 1..n |-> R({1, 3, 8, 14, 16, R(1..118)})], f |-> [i \in 1..n |-> <<(5 * i + R(0..4)) % 24, R(-5..29), R(0..23)>>]])
        /\ phase' = (IF Len(st) = 2 \/ R(1..2) = 1 THEN "go" ELSE "cell") /\ UNCHANGED hist
Ask == /\ phase = "go" /\ Len(hist) < Depth /\ UNCHANGED <<st, phase>>
       /\ \E kd \in {R({"perturb", "perturb", "batch"})}, n \in {R({R(1..5), R(1..5), R(10..13)})}, f \in {R({0, 10000, 30000, 100000, 300000, -1})}, d \in {R({0, 1, 5, 30, -1})}, k \in {R(1..Len(st))} :
            hist' = Append(hist, [op |-> kd, n |-> n, f |-> f, d |-> d, of |-> IF kd = "perturb" THEN <<k>> ELSE Perm(Some(1..Len(st)))])
Finish == phase = "go" /\ Len(hist) = Depth /\ phase' = "done" /\ UNCHANGED <<st, hist>>
Retry == UNCHANGED <<st, hist, phase>>
Next == Cell \/ Ask \/ Finish
Righthanded == \A k \in 1..Len(st) : Legal(st[k])
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([st |-> st, hist |-> hist]))
=============================================================================
