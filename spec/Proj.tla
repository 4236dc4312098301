-------------------------------- MODULE Proj --------------------------------
(* Tables of projected densities of states and of projected (fat) bands.  A table is a list of columns            *)
(* [el |-> element, orb |-> orbital] and a list of rows [x |-> abscissas, w |-> one weight per column].            *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumOver(_, _)
SumOver(w, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN w[j] + SumOver(w, S \ {j})
Els(t) == {t.cols[j].el : j \in 1..Len(t.cols)}
Of(t, el) == {j \in 1..Len(t.cols) : t.cols[j].el = el}
(* The projection of row i on an element: the sum over the columns of that element, and of no other. *)
OnEl(t, i, el) == SumOver(t.rows[i].w, Of(t, el))
(* Projections lose nothing: over all elements they add up to the sum of all columns. *)
Complete(t) == \A i \in 1..Len(t.rows) :
   LET R[S \in SUBSET Els(t)] == IF S = {} THEN 0 ELSE LET el == CHOOSE el \in S : TRUE IN OnEl(t, i, el) + R[S \ {el}]
   IN R[Els(t)] = SumOver(t.rows[i].w, 1..Len(t.cols))
(* Fat bands: the rows of band b of n bands, in order. *)
NPer(t, n) == Len(t.rows) \div n
BandRows(t, n, b) == SubSeq(t.rows, (b - 1) * NPer(t, n) + 1, b * NPer(t, n))
=============================================================================
