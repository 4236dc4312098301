-------------------------------- MODULE KPts --------------------------------
(* k-points: reading them, placing them in reciprocal space, the axis of a band plot, paths between the points of *)
(* high symmetry, regular meshes.  Cells are integer matrices (angstrom); k-points have coordinates in units of    *)
(* 1/G; a vector of reciprocal space is given in units of 2 pi / (G |det cell|), where it is integer.              *)
EXTENDS Crystal
Cof(L) == <<Cross(L[2], L[3]), Cross(L[3], L[1]), Cross(L[1], L[2])>>
Sign(x) == IF x < 0 THEN -1 ELSE 1
KCart(k, L) == VMul(Sign(Det(L)), Comb(k, Cof(L)))
(* The axis of a band plot advances by the distance between consecutive points, except across a jump between paths: *)
(* two points of high symmetry in a row end one path and begin the next.                                           *)
Jump(ks, i) == ks[i - 1].lab # "" /\ ks[i].lab # ""
Advance2(ks, L, i) == IF i = 1 \/ (i > 1 /\ Jump(ks, i)) THEN 0 ELSE Norm2(KCart(VSub(ks[i].c, ks[i - 1].c), L))
Hsp(ks) == SelectSeq(ks, LAMBDA k : k.lab # "")

(* Points (in units of 1/6) and paths of the primitive Bravais lattices judged here (Setyawan and Curtarolo 2010).  *)
Pts(fam) ==
  CASE fam = "CUB" -> [G |-> <<0, 0, 0>>, X |-> <<0, 3, 0>>, M |-> <<3, 3, 0>>, R |-> <<3, 3, 3>>]
    [] fam = "TET" -> [G |-> <<0, 0, 0>>, X |-> <<0, 3, 0>>, M |-> <<3, 3, 0>>, Z |-> <<0, 0, 3>>, R |-> <<0, 3, 3>>, A |-> <<3, 3, 3>>]
    [] fam = "ORC" -> [G |-> <<0, 0, 0>>, X |-> <<3, 0, 0>>, Y |-> <<0, 3, 0>>, Z |-> <<0, 0, 3>>, S |-> <<3, 3, 0>>, T |-> <<0, 3, 3>>, U |-> <<3, 0, 3>>, R |-> <<3, 3, 3>>]
    [] fam = "HEX" -> [G |-> <<0, 0, 0>>, M |-> <<3, 0, 0>>, K |-> <<2, 2, 0>>, A |-> <<0, 0, 3>>, L |-> <<3, 0, 3>>, H |-> <<2, 2, 3>>]
Paths3(fam) ==
  CASE fam = "CUB" -> << <<"G", "X", "M", "G", "R", "X">>, <<"M", "R">> >>
    [] fam = "TET" -> << <<"G", "X", "M", "G", "Z", "R", "A", "Z">>, <<"X", "R">>, <<"M", "A">> >>
    [] fam = "ORC" -> << <<"G", "X", "S", "Y", "G", "Z", "U", "R", "T", "Z">>, <<"Y", "T">>, <<"U", "X">>, <<"S", "R">> >>
    [] fam = "HEX" -> << <<"G", "M", "K", "G", "A", "L", "H", "A">>, <<"L", "M">>, <<"K", "H">> >>
(* A two-dimensional material keeps the points of the plane only. *)
Names(fam, dim) == {n \in DOMAIN Pts(fam) : dim = 3 \/ Pts(fam)[n][3] = 0}
Paths(fam, dim) == LET keep(p) == SelectSeq(p, LAMBDA n : n \in Names(fam, dim))
                   IN SelectSeq([i \in 1..Len(Paths3(fam)) |-> keep(Paths3(fam)[i])], LAMBDA p : Len(p) > 1)
RECURSIVE SegsOf(_)
SegsOf(p) == IF Len(p) < 2 THEN <<>> ELSE <<<<p[1], p[2]>>>> \o SegsOf(Tail(p))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Segments(fam, dim) == Flat([i \in 1..Len(Paths(fam, dim)) |-> SegsOf(Paths(fam, dim)[i])])
(* Squared length of a segment d (sixths) as a fraction Num/Den of 1/angstrom^2, no factor 2 pi. *)
Num(c, d) == IF c.fam = "HEX" THEN 4 * (d[1] * d[1] + d[1] * d[2] + d[2] * d[2]) * c.c * c.c + 3 * d[3] * d[3] * c.a * c.a
             ELSE d[1] * d[1] * c.b * c.b * c.c * c.c + d[2] * d[2] * c.a * c.a * c.c * c.c + d[3] * d[3] * c.a * c.a * c.b * c.b
Den(c) == IF c.fam = "HEX" THEN 108 * c.a * c.a * c.c * c.c ELSE 36 * c.a * c.a * c.b * c.b * c.c * c.c
(* the number of points of a segment at density 1/m: the length over the density, rounded up *)
PointsOK(c, seg, n) == LET d == VSub(Pts(c.fam)[seg[2]], Pts(c.fam)[seg[1]])
                       IN (n - 1) * (n - 1) * Den(c) <= c.m * c.m * Num(c, d) /\ c.m * c.m * Num(c, d) <= n * n * Den(c)

(* Meshes: along direction i the length of the reciprocal vector (no 2 pi) over the density 1/m, rounded, at least 1,  *)
(* and 1 where there is vacuum: a cell length more than 10 angstrom beyond the atoms' Cartesian extent (quarters).     *)
Ext4(x, i) == LET S == {p[i] : p \in SeqSet(x.pos4)} IN SetMax(S) - (CHOOSE y \in S : \A z \in S : y <= z)
Vac(x, i) == 16 * Norm2(x.cell[i]) > (40 + Ext4(x, i)) * (40 + Ext4(x, i))
MeshOK(x, i, n) == IF x.m = 0 \/ Vac(x, i) THEN n = 1
                   ELSE LET c2 == 4 * x.m * x.m * Norm2(Cof(x.cell)[i])
                            d2 == Det(x.cell) * Det(x.cell)
                        IN n >= 1 /\ (n = 1 \/ (2 * n - 1) * (2 * n - 1) * d2 <= c2) /\ c2 <= (2 * n + 1) * (2 * n + 1) * d2
MeshClear(x) == \A i \in 1..3 : 16 * Norm2(x.cell[i]) # (40 + Ext4(x, i)) * (40 + Ext4(x, i))
(* The irreducible points of a mesh in an orthorhombic crystal: points that differ by signs are one. *)
IrrAlong(n, s) == IF s = 0 THEN n \div 2 + 1 ELSE (n + 1) \div 2
Irr(n, s) == IrrAlong(n[1], s[1]) * IrrAlong(n[2], s[2]) * IrrAlong(n[3], s[3])
=============================================================================
