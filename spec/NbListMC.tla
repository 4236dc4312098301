------------------------------ MODULE NbListMC ------------------------------
(***************************************************************************)
(* State machine of a client preparing and asking neighbour queries, for    *)
(* TLC: exhaustive over small choices, checking that the specification of   *)
(* the reply is itself consistent, and printing each query for replay.      *)
(***************************************************************************)
EXTENDS NbList, TLC, Json
CONSTANTS CellSet, K, FracPairs, RchSet, SortSet, Emit
VARIABLES phase, qy

CartOf(k, c) == Comb(k, c)           \* k in K-ths of the cell vectors; the grid is K times finer
Init == phase = "cell" /\ qy = [cell |-> <<>>, pbc |-> <<>>, pos |-> <<>>, frac |-> <<>>, z |-> <<>>, rch |-> 0, umax |-> 0, sort |-> FALSE]
PickCell == phase = "cell" /\ phase' = "pbc" /\ \E c \in CellSet : qy' = [qy EXCEPT !.cell = MScale(K, c)]
PickPbc == phase = "pbc" /\ phase' = "atoms" /\ \E p \in [1..3 -> BOOLEAN] : qy' = [qy EXCEPT !.pbc = p]
PutAtoms == phase = "atoms" /\ phase' = "cut" /\
            \E fp \in FracPairs : qy' = [qy EXCEPT !.frac = fp,
                 !.pos = [i \in 1..Len(fp) |-> LET v == Comb(fp[i], qy.cell) IN <<v[1] \div K, v[2] \div K, v[3] \div K>>],
                 !.z = [i \in 1..Len(fp) |-> 5 + 3 * (i % 2)]]
Ask == phase = "cut" /\ phase' = "asked" /\
       \E r \in RchSet, s \in SortSet : qy' = [qy EXCEPT !.rch = r, !.sort = s]
Next == PickCell \/ PickPbc \/ PutAtoms \/ Ask
Spec == Init /\ [][Next]_<<phase, qy>>

Asked == phase = "asked"
N == Expected(qy)
(* the design-level facts the reply must satisfy for every query *)
Mutual == Asked => \A i \in 1..Len(qy.pos) : \A e \in N[i] : <<i, VNeg(e[2])>> \in N[e[1]]
NoSelf == Asked => \A i \in 1..Len(qy.pos) : <<i, Zero3>> \notin N[i]
PrintCase == (Asked /\ Emit) => PrintT("VFCASE " \o ToJson(qy))
=============================================================================
