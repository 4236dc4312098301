---------------------------- MODULE PyStructGen ----------------------------
(* Clients of the Python structure layer.  Mode "all": every small choice (exhaustive); mode  *)
(* "random" (tlc -simulate): larger skewed cells, several atoms, in or outside the home cell. *)
EXTENDS PyStruct, TLC, Json
CONSTANTS Mode, MinAtoms, MaxAtoms, MaxCopies
VARIABLES phase, st, frac, K, M, scale, rch
vars == <<phase, st, frac, K, M, scale, rch>>
R(S) == RandomElement(S)
Pick(S) == IF Mode = "all" THEN S ELSE {R(S)}
SmallCells == { <<<<3,0,0>>,<<0,4,0>>,<<0,0,5>>>>, <<<<4,0,0>>,<<-2,3,0>>,<<0,1,6>>>>, <<<<0,5,0>>,<<0,1,3>>,<<4,0,1>>>> }
Sign(i) == IF R(1..5) = 1 THEN -1 ELSE 1
Flip(c, s) == <<VMul(s[1], c[1]), VMul(s[2], c[2]), VMul(s[3], c[3])>>
RandCell(k) == Flip(
  IF k = 1 THEN << <<R(3..12), 0, 0>>, <<0, R(3..12), 0>>, <<0, 0, R(3..16)>> >>
  ELSE << <<R(4..12), R(-3..3), R(-3..3)>>, <<R(-3..3), R(4..12), R(-3..3)>>, <<R(-3..3), R(-3..3), R(4..14)>> >>, <<Sign(1), Sign(2), Sign(3)>>)
SmallSites == { << <<0,0,0>> >>, << <<1,1,1>> >>, << <<1,0,1>>, <<0,0,0>> >>, << <<1,1,1>>, <<0,1,0>>, <<0,0,0>> >>, << <<1,3,0>>, <<-2,0,1>> >> }
SmallZ == {<<8, 3, 8>>, <<3, 3, 3>>, <<42, 16, 8>>}
Init == phase = "cell" /\ st = [cell |-> <<>>, pos |-> <<>>, z |-> <<>>] /\ frac = <<>> /\ K = 2 /\ M = 1 /\ scale = <<1,1,1>> /\ rch = 0
PosOf(f, c, k) == LET v == Comb(f, c) IN <<v[1] \div k, v[2] \div k, v[3] \div k>>
PickCell == /\ phase = "cell" /\ phase' = "atoms"
            /\ IF Mode = "all" THEN \E c \in SmallCells : st' = [st EXCEPT !.cell = MScale(2, c)] /\ UNCHANGED <<K, M>>
               ELSE \E k \in {R(IF MinAtoms > 6 THEN {3, 4, 5} ELSE {2, 3, 4, 5})}, m \in {R(1..3)}, c \in {RandCell(R(1..4))} :
                    Abs(Det(c)) >= 20 /\ st' = [st EXCEPT !.cell = MScale(k, c)] /\ K' = k /\ M' = m
            /\ UNCHANGED <<frac, scale, rch>>
PutAll == /\ Mode = "all" /\ phase = "atoms" /\ phase' = "scale"
          /\ \E f \in SmallSites, z \in SmallZ :
               /\ frac' = f
               /\ st' = [st EXCEPT !.pos = [i \in 1..Len(f) |-> PosOf(f[i], st.cell, K)], !.z = SubSeq(z, 1, Len(f))]
          /\ UNCHANGED <<K, M, scale, rch>>
ModK(f) == <<f[1] % K, f[2] % K, f[3] % K>>
AddAtom == /\ Mode = "random" /\ phase = "atoms"
           /\ \E f \in {<<R(0..(K-1)), R(0..(K-1)), R(0..(K-1))>>}, far \in {R(1..4) = 1} :
              \E g \in {IF far THEN VAdd(f, <<K * R(-1..1), K * R(-1..1), K * R(-1..1)>>) ELSE f} :
                /\ f \notin {ModK(frac[i]) : i \in 1..Len(frac)}
                /\ frac' = Append(frac, g)
                /\ st' = [st EXCEPT !.pos = Append(@, PosOf(g, st.cell, K)), !.z = Append(@, R({1, 3, 8, 14, 16, 42, R(1..118), R(90..118)}))]
           /\ phase' = (IF Len(frac) + 1 >= MinAtoms /\ R(1..MaxAtoms) <= Len(frac) + 1 THEN "scale" ELSE "atoms")
           /\ UNCHANGED <<K, M, scale, rch>>
PickScale == /\ phase = "scale" /\ phase' = "cut"
             /\ \E a \in Pick({1, 3, 5}), b \in Pick({1, 3, 5}), c \in Pick({1, 3}) :
                  a * b * c * Len(st.pos) <= MaxCopies /\ scale' = <<a, b, c>>
             /\ UNCHANGED <<st, frac, K, M, rch>>
Cut == /\ phase = "cut" /\ phase' = "done"
       /\ IF Mode = "all" THEN \E r \in {3, 13, 21} : rch' = r ELSE \E r \in {2 * R(2..(12*K)) + 1} : rch' = r
       /\ UNCHANGED <<st, frac, K, M, scale>>
Retry == phase \in {"cell", "atoms", "scale"} /\ Mode = "random" /\ UNCHANGED vars
Next == PickCell \/ PutAll \/ AddAtom \/ PickScale \/ Cut \/ Retry
Done == phase = "done"
(* the specification is consistent: mutual neighbours whenever the replica is symmetric, copies tile *)
Tiles == Done => Cardinality(Replica(st, scale)) = Len(st.pos) * scale[1] * scale[2] * scale[3]
Mutual == Done => \A i \in 1..Len(st.pos) : \A x \in PyNbrs(st, scale, rch, i) : <<i, VNeg(x[2])>> \in PyNbrs(st, scale, rch, x[1])
OrderOk == Done => LET o == Order(st) IN \A a, b \in 1..Len(st.pos) : a < b => (st.z[o[a]] < st.z[o[b]] \/ (st.z[o[a]] = st.z[o[b]] /\ o[a] < o[b]))
PrintCase == Done => PrintT("VFCASE " \o ToJson([st |-> st, frac |-> frac, K |-> K, M |-> M, scale |-> scale, rch |-> rch]))
=============================================================================
