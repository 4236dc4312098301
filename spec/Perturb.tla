-------------------------------- MODULE Perturb --------------------------------
(***************************************************************************)
(* Random perturbation of structures for active learning.  A copy of a     *)
(* structure with cell L is  L E Q  with E = 1 + e symmetric,              *)
(* |e_ii| <= f, |e_ij| <= f/2, and Q the rotation that makes the cell      *)
(* lower triangular; every atom keeps its fractional position up to a      *)
(* displacement of about d.  Observations are E (in 1e-6), displacements   *)
(* in units of d/1000, angstroms/1e6 when d = 0.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1]) + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Legal(s) == Det3(s.lat) > 0
Fail(b, name) == IF b THEN {} ELSE {name}
(* a copy c of structure s, for fraction f (1e-6) and distance d (0 or not), within margin m (1e-6) *)
CopyFail(s, c, f, d, m) ==
  Fail(c.z = s.z, "a copy has the atoms of its structure, in order")
  \cup Fail(\A i, j \in 1..3 : j > i => Abs(c.lat[i][j]) <= m, "the cell of a copy is lower triangular")
  \cup Fail(\A i \in 1..3 : c.lat[i][i] > 0, "with a positive diagonal")
  \cup Fail(c.odd <= 50 + 3 * m, "the cell is the old one, deformed and turned")
  \cup Fail(\A i, j \in 1..3 : Abs(c.e[i][j] - (IF i = j THEN 1000000 ELSE 0)) <= (IF i = j THEN f ELSE f \div 2) + 2 * m, "the deformation is symmetric and within its fraction")
  \cup Fail(Len(c.u) = Len(s.z) /\ \A i \in 1..Len(c.u) : \A k \in 1..3 : Abs(c.u[i][k]) <= (IF d = 0 THEN 20 + 30 * m ELSE 6000), "atoms move by about the distance, or not at all for zero")
Sum3(v) == v[1] + v[2] + v[3]
=============================================================================
