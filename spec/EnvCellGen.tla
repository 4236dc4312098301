------------------------------ MODULE EnvCellGen ------------------------------
(* Small crystals on a coarse grid (neighbours 1 .. 9 grid units away), with the species asked for as centres and as neighbours. *)
EXTENDS EnvMat, TLC, Json
CONSTANTS MinAtoms, MaxAtoms, MaxRch, Far    \* Far: how many cells away from the home cell an atom may lie
VARIABLES phase, qy, co, no, room, unit, pal
R(S) == RandomElement(S)
(* triangular cells: the integer points of the box are inequivalent; Wrap brings one into the cell *)
Wrap(p, c) == LET n2 == (p[2] * c[3][3] - p[3] * c[3][2]) \div (c[2][2] * c[3][3])
                  y == p[2] - n2 * c[2][2]
                  x == p[1] - n2 * c[2][1]
                  n1 == (x * c[2][2] * c[3][3] - (y * c[3][3] - p[3] * c[3][2]) * c[2][1] - p[3] * c[3][1] * c[2][2]) \div Det(c)
              IN <<x - n1 * c[1][1], y, p[3]>>
Home(p, c) == Wrap(VSub(p, VMul(p[3] \div c[3][3], c[3])), c)
Turn(v, p) == <<v[p[1]], v[p[2]], v[p[3]]>>
TurnCell(c, p) == <<Turn(c[1], p), Turn(c[2], p), Turn(c[3], p)>>
Sign(i) == IF R(1..5) = 1 THEN -1 ELSE 1
Flip(c, s) == <<VMul(s[1], c[1]), VMul(s[2], c[2]), VMul(s[3], c[3])>>     \* the same lattice from other vectors
Zs(i) == IF R(1..3) = 1 THEN {R(1..118), R(1..118), R(60..118), R(1..13), R(1..40), R(80..118)} ELSE {1, 3, 8, 42}
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET y == R(S) IN <<y>> \o Perm(S \ {y})
Half(S) == {z \in S : R(1..3) # 1}
Init == phase = "cell" /\ qy = [cell |-> <<>>, pos |-> <<>>, z |-> <<>>, pbc |-> <<>>, rsh |-> 0, rch |-> 0, wide |-> 0] /\ co = <<>> /\ no = <<>> /\ room = 0 /\ unit = 4 /\ pal = {}
PickCell == /\ phase = "cell" /\ phase' = "atoms"
            /\ \E k \in {R(1..2)} :
               qy' = [qy EXCEPT !.cell = <<<<R(3..8), 0, 0>>, <<IF k = 1 THEN 0 ELSE R(-3..3), R(3..8), 0>>, <<IF k = 1 THEN 0 ELSE R(-2..2), IF k = 1 THEN 0 ELSE R(-3..3), R(3..8)>>>>,
                                !.pbc = <<R(1..4) # 1, R(1..4) # 1, R(1..4) # 1>>]
            /\ pal' = Zs(1) /\ UNCHANGED <<co, no, room, unit>>
AddAtom == /\ phase = "atoms" /\ UNCHANGED <<co, no, room, unit, pal>>
           /\ \E p \in {Wrap(<<R(0..(qy.cell[1][1] - 1)), R(0..(qy.cell[2][2] - 1)), R(0..(qy.cell[3][3] - 1))>>, qy.cell)} :
              \E q \in {VAdd(p, Comb(<<R((-Far)..Far), R((-Far)..Far), R((-Far)..Far)>>, qy.cell))} :
                 p \notin {Home(y, qy.cell) : y \in SeqSet(qy.pos)} /\ qy' = [qy EXCEPT !.pos = Append(@, q), !.z = Append(@, R(pal))]
           /\ phase' = IF Len(qy.pos) + 1 >= MinAtoms /\ R(1..MaxAtoms) <= Len(qy.pos) + 1 THEN "cut" ELSE "atoms"
Ask == /\ phase = "cut" /\ phase' = "asked"
       /\ \E r \in {2 * R(1..((MaxRch - 1) \div 2)) + 1}, p \in {R({<<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>})} :
          \E s \in {R(1..(r - 1))} :
             qy' = [qy EXCEPT !.cell = Flip(TurnCell(qy.cell, p), <<Sign(1), Sign(2), Sign(3)>>), !.pos = [i \in 1..Len(qy.pos) |-> Turn(qy.pos[i], p)], !.rsh = s, !.rch = r, !.wide = r + R({0, 0, 2, 4})]
       /\ \E a \in {Half(SeqSet(qy.z))}, b \in {Half(SeqSet(qy.z))} :
             co' = (IF a = {} THEN Perm(SeqSet(qy.z)) ELSE Perm(a)) /\ no' = (IF b = {} THEN Perm(SeqSet(qy.z)) ELSE Perm(b \cup (IF R(1..6) = 1 THEN {14} ELSE {})))
       /\ unit' = R({3, 4, 5, 6}) /\ room' = R(0..2) /\ UNCHANGED pal
Retry == phase \in {"cell", "atoms", "cut"} /\ UNCHANGED <<phase, qy, co, no, room, unit, pal>>
Next == PickCell \/ AddAtom \/ Ask \/ Retry
(* wide: the cutoff of the neighbour table the matrix is taken from, not below the matrix's own *)
Broad(q) == [q EXCEPT !.rch = q.wide]
All(q) == 1..Len(q.z)
Few == SumSeq(CrystalWidths(Broad(qy), no, All(qy))) <= 150
PrintCase == phase = "asked" /\ Few => PrintT("VFCASE " \o ToJson([qy |-> qy, co |-> co, no |-> no, need |-> CrystalWidths(qy, no, All(qy)), broad |-> CrystalWidths(Broad(qy), no, All(qy)),
                                                                  reach |-> Reach(qy.cell, qy.pbc, (qy.wide + 1) \div 2), total |-> SetMax({Cardinality(NL!Expected(Broad(qy))[i]) : i \in All(qy)}), room |-> room, unit |-> unit]))
=============================================================================
