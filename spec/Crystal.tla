------------------------------- MODULE Crystal -------------------------------
(***************************************************************************)
(* Crystals on an integer grid.  A cell is three integer vectors, a site is *)
(* an integer vector (Cartesian, same unit) with a species number; a        *)
(* periodic image of a site is shifted by an integer combination of the     *)
(* cell vectors along the periodic directions only.  All geometry is exact. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

VAdd(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
VSub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
VNeg(u) == <<-u[1], -u[2], -u[3]>>
VMul(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1] >>
Norm2(u) == Dot(u, u)
Det(c) == Dot(c[1], Cross(c[2], c[3]))
Comb(n, c) == << n[1]*c[1][1] + n[2]*c[2][1] + n[3]*c[3][1],
                 n[1]*c[1][2] + n[2]*c[2][2] + n[3]*c[3][2],
                 n[1]*c[1][3] + n[2]*c[2][3] + n[3]*c[3][3] >>
MScale(k, c) == << VMul(k, c[1]), VMul(k, c[2]), VMul(k, c[3]) >>
Zero3 == <<0, 0, 0>>

(* smallest r with r*r >= n *)
RECURSIVE CeilSqrtIn(_, _, _)
CeilSqrtIn(n, lo, hi) ==          \* lo^2 < n <= hi^2
  IF hi - lo <= 1 THEN hi
  ELSE LET m == (lo + hi) \div 2 IN IF m * m >= n THEN CeilSqrtIn(n, lo, m) ELSE CeilSqrtIn(n, m, hi)
CeilSqrt(n) == IF n <= 0 THEN 0 ELSE CeilSqrtIn(n, 0, 46340)

(* Sites have fractional coordinates in [0,1): the image number of a neighbour   *)
(* along direction k is below  rc / d_k + 1,  d_k = |det| / |cross of the others|*)
CeilDiv(a, b) == (a + b - 1) \div b
ReachAlong(cell, rcCeil, k) ==
  LET o == IF k = 1 THEN Cross(cell[2], cell[3]) ELSE IF k = 2 THEN Cross(cell[3], cell[1]) ELSE Cross(cell[1], cell[2])
  IN  (rcCeil * CeilSqrt(Norm2(o))) \div Abs(Det(cell)) + 1
(* sites anywhere: whole cells more, as many as the sites lie apart *)
FaceOf(cell, k) == IF k = 1 THEN Cross(cell[2], cell[3]) ELSE IF k = 2 THEN Cross(cell[3], cell[1]) ELSE Cross(cell[1], cell[2])
ApartAlong(cell, pos, k) ==
  LET o == FaceOf(cell, k)
      h == { Dot(pos[i], o) : i \in 1..Len(pos) }
  IN  IF h = {} THEN 0 ELSE ((CHOOSE x \in h : \A y \in h : y <= x) - (CHOOSE x \in h : \A y \in h : y >= x)) \div Abs(Det(cell))
Reach(cell, pbc, rcCeil) == [k \in 1..3 |-> IF pbc[k] THEN ReachAlong(cell, rcCeil, k) ELSE 0]

ReachOf(cell, pos, pbc, rcCeil) == [k \in 1..3 |-> IF pbc[k] THEN ReachAlong(cell, rcCeil, k) + ApartAlong(cell, pos, k) ELSE 0]

Box(r) == { <<a, b, c>> : a \in (-r[1])..r[1], b \in (-r[2])..r[2], c \in (-r[3])..r[3] }
Shifts(cell, r) == { Comb(n, cell) : n \in Box(r) }

(* The neighbours of site i: <<j, v>> for every image of site j at offset v from i,   *)
(* the site itself excluded.  `In(d2)` is the cutoff predicate on squared distance.   *)
NbrsOf(pos, i, shifts, In(_)) ==
  UNION { { <<j, v>> : v \in { w \in { VAdd(VSub(pos[j], pos[i]), s) : s \in shifts } : Norm2(w) # 0 /\ In(Norm2(w)) } }
          : j \in 1..Len(pos) }

SeqSet(s) == { s[k] : k \in 1..Len(s) }
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
IsPerm(s, t) == Len(s) = Len(t) /\ \A x \in SeqSet(s) \cup SeqSet(t) :
                  Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
