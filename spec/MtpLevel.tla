------------------------------ MODULE MtpLevel ------------------------------
(***************************************************************************)
(* Moment tensor potentials: a moment descriptor is a pair (mu, nu) of     *)
(* radial index and tensor rank with level 2 + 4 mu + nu; a basis function *)
(* is a bag of moment descriptors whose tensors contract to a scalar, and  *)
(* its level is the sum of theirs.  A bag is written as the sequence of    *)
(* its pairs in a fixed order of the pairs (by level, then by mu).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Lev(p) == 2 + 4 * p[1] + p[2]
Before(p, q) == Lev(p) < Lev(q) \/ (Lev(p) = Lev(q) /\ p[1] <= q[1])
Pairs(l) == {p \in (0..(l \div 4)) \X (0..l) : Lev(p) <= l}
Canon(c) == SortSeq(c, Before)
RECURSIVE Sch(_, _)
Sch(l, lo) == IF l = 0 THEN {<<>>} ELSE UNION {{<<p>> \o s : s \in Sch(l - Lev(p), p)} : p \in {x \in Pairs(l) : Before(lo, x)}}
Schemes(l) == Sch(l, <<0, 0>>)                         \* every bag of level exactly l
Ranks(c) == [i \in 1..Len(c) |-> c[i][2]]
SumR(r) == FoldFunction(+, 0, r)
Largest(r) == Max({r[i] : i \in DOMAIN r})
Count(r, v) == Cardinality({i \in DOMAIN r : r[i] = v})
\* the largest tensor absorbs all the others, or tensors of equal rank cancel two by two
ByLargest(r) == 2 * Largest(r) = SumR(r)
ByPairs(r) == \A i \in DOMAIN r : r[i] = 0 \/ Count(r, r[i]) % 2 = 0
Scalar(c) == c # <<>> /\ LET r == Ranks(c) IN IF Len(c) = 1 THEN r[1] = 0 ELSE ByLargest(r) \/ ByPairs(r)
Basis(l) == {c \in UNION {Schemes(k) : k \in 0..l} : Scalar(c)}
Mus(l) == {p[1] : p \in UNION {ToSet(c) : c \in Basis(l)}}
=============================================================================
