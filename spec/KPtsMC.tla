------------------------------- MODULE KPtsMC -------------------------------
EXTENDS KPts, TLC, Json
CONSTANTS Mode, MaxPts, Depth
VARIABLES phase, x, hist
R(S) == RandomElement(S)
RL(i) == R(-3..3)
Cell(i, lo, hi) == <<<<R(lo..hi), RL(1), RL(2)>>, <<RL(3), R(lo..hi), RL(4)>>, <<RL(5), RL(6), R(lo..hi)>>>>
Flip(c, i) == IF R(1..3) = 1 THEN <<c[2], c[1], c[3]>> ELSE c
Pt(i, lab) == [c |-> <<R(-8..8), R(-8..8), R(-8..8)>>, w |-> R(0..9999), lab |-> lab]
Labels == {"G", "M", "K", "X1", "A|B", "L"}
RndFile(i) == [kind |-> "inkpt", g |-> 8, cell |-> Flip(Cell(1, 3, 7), 1),
               ks |-> [j \in 1..R(1..MaxPts) |-> Pt(j, IF j = 1 \/ R(1..3) = 1 THEN R(Labels) ELSE "")]]
Fam(i) == R({"CUB", "TET", "ORC", "HEX"})
RndPath(i, f) == LET a == R(3..4)
                     b == IF f = "ORC" THEN a + 1 ELSE a
                     c == IF f = "CUB" THEN a ELSE IF f = "ORC" THEN b + R(1..1) ELSE R({3, 4, 5, 6} \ {a})
                 IN [kind |-> "path", fam |-> f, a |-> a, b |-> b, c |-> c, dim |-> R({2, 3}), m |-> R(8..50)]
RndMesh(i) == LET c == Flip(IF R(1..2) = 1 THEN Cell(1, 3, 7) ELSE [r \in 1..3 |-> [q \in 1..3 |-> IF r = q THEN R({R(3..8), R(11..18)}) ELSE R({-1, 0, 0, 1})]], 1)
                  f == [j \in 1..R(1..3) |-> <<R(0..3), R(0..3), R(0..3)>>]
              IN [kind |-> "mesh", cell |-> c, frac4 |-> f, pos4 |-> [j \in 1..Len(f) |-> Comb(f[j], c)], m |-> R({0, R(3..60), R(3..60), R(3..60)})]
RndIrr(i) == LET a == R(3..5) IN [kind |-> "irr", a |-> a, b |-> a + R(1..2), c |-> a + 4, mesh |-> <<R(1..5), R(1..5), R(1..5)>>, shift |-> <<R(0..1), R(0..1), R(0..1)>>]
AllPaths == {[kind |-> "path", fam |-> f, a |-> 3, b |-> IF f = "ORC" THEN 4 ELSE 3, c |-> IF f = "CUB" THEN 3 ELSE 5, dim |-> d, m |-> m]
             : f \in {"CUB", "TET", "ORC", "HEX"}, d \in {2, 3}, m \in {10, 17, 40}}
AllKs == {[kind |-> "inkpt", g |-> 8, cell |-> <<<<4, 0, 0>>, <<-2, 5, 0>>, <<0, 1, 6>>>>,
           ks |-> [j \in 1..n |-> [c |-> <<j * j, 3 - 2 * j, IF j = 2 THEN 5 ELSE 0>>, w |-> j, lab |-> IF lb[j] THEN "K" ELSE ""]]] : lb \in [1..5 -> BOOLEAN], n \in 3..5}
OK(y) == IF y.kind = "mesh" THEN MeshClear(y) ELSE TRUE
NonSing(y) == IF y.kind \in {"inkpt", "mesh"} THEN Det(y.cell) # 0 /\ Abs(Det(y.cell)) < 2200 ELSE TRUE
RandomCase(i) == LET k == R(1..10) IN IF k <= 5 THEN RndFile(1) ELSE IF k <= 7 THEN RndMesh(1) ELSE IF k = 8 THEN RndIrr(1) ELSE RndPath(1, Fam(1))
Init == phase = "pick" /\ x = <<>> /\ hist = <<>>
Pick == /\ phase = "pick" /\ phase' = "ask" /\ UNCHANGED hist
        /\ \E y \in (IF Mode = "all" THEN AllPaths \cup AllKs ELSE {RandomCase(1)}) : NonSing(y) /\ OK(y) /\ x' = y
Retry == Mode = "random" /\ phase = "pick" /\ UNCHANGED <<phase, x, hist>>
Kinds == CASE x.kind = "inkpt" -> {"count", "frac", "weights", "hsp", "cart", "cartb", "axis", "axisb"}
           [] x.kind = "path" -> {"points", "paths", "highk", "gen"}
           [] x.kind = "mesh" -> {"mesh"} [] x.kind = "irr" -> {"irr", "nirr"}
Ask == /\ phase = "ask" /\ UNCHANGED <<phase, x>>
       /\ IF Mode = "all" THEN hist = <<>> /\ hist' = (IF x.kind = "inkpt" THEN <<"hsp", "axis", "axisb">> ELSE <<"paths", "points", "highk", "gen">>)
          ELSE Len(hist) < (IF x.kind = "mesh" THEN 1 ELSE Depth) /\ \E q \in {R(Kinds)} : hist' = Append(hist, q)
Finish == /\ phase = "ask" /\ Len(hist) >= (IF Mode = "all" \/ x.kind = "mesh" THEN 1 ELSE Depth) /\ phase' = "done" /\ UNCHANGED <<x, hist>>
Next == Pick \/ Retry \/ Ask \/ Finish
(* Every segment joins points of the material's dimension, and every path of three dimensions survives there. *)
Theorems == phase # "pick" /\ x.kind = "path" =>
   /\ \A i \in 1..Len(Segments(x.fam, x.dim)) : Segments(x.fam, x.dim)[i][1] \in Names(x.fam, x.dim) /\ Segments(x.fam, x.dim)[i][2] \in Names(x.fam, x.dim)
   /\ Paths(x.fam, 3) = Paths3(x.fam)
   /\ \A i \in 1..Len(Segments(x.fam, x.dim)) : \E n \in 1..60 : PointsOK(x, Segments(x.fam, x.dim)[i], n)
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([x |-> x, hist |-> hist]))
=============================================================================
