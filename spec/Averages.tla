------------------------------- MODULE Averages -------------------------------
(***************************************************************************)
(* Averages over a trajectory: displacements between frames, bond lengths  *)
(* and bond angles.  Lengths are in fortieths of an angstrom, so that      *)
(* squared lengths and scalar products are integers.                       *)
(***************************************************************************)
EXTENDS Collection
St(fr, k) == GridSt(fr[k].lines)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Moves(a, b) == [i \in 1..Len(a.pos) |-> C!VSub(b.pos[i], a.pos[i])]
(* number of atoms times the mean squared displacement *)
Msd(a, b) == LET m == Moves(a, b) IN SumTo([i \in 1..Len(m) |-> C!Norm2(m[i])], Len(m))
Drift(a, b) == LET m == Moves(a, b) IN [c \in 1..3 |-> SumTo([i \in 1..Len(m) |-> m[i][c]], Len(m))]
(* its square times the mean squared displacement about the centroid *)
MsdC(a, b) == Len(a.pos) * Msd(a, b) - C!Norm2(Drift(a, b))
(* bonds of centres of species z1 with neighbours of species z2: << centre, owner, vector >> *)
Bonds(g, e, z1, z2) == UNION {{<<i, x[1], x[2]>> : x \in {y \in PS!PyNbrs(g, e.scale, e.rch, i) : g.z[y[1]] = z2}} : i \in {j \in 1..Len(g.pos) : g.z[j] = z1}}
RECURSIVE ISq(_, _, _)
ISq(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN ISq(v, m, hi) ELSE ISq(v, lo, m)
ISqrt(v) == ISq(v, 0, 46340)
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN ISqrt(10000 * C!Norm2(x[3])) + SumSet(S \ {x})
(* the angles at centres of z1 between a neighbour of z2 and one of z3; each unordered pair once if the species agree *)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Angles(g, e) == LET n2 == Bonds(g, e, e.z1, e.z2)
                    n3 == Bonds(g, e, e.z1, e.z3)
                IN UNION {{<<x, y>> : y \in {w \in n3 : w[1] = x[1] /\ (e.z2 = e.z3 => Less(x[3], w[3]))}} : x \in n2}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Key(p) == LET a == C!Norm2(p[1][3])
              b == C!Norm2(p[2][3]) IN <<Min2(a, b), Max2(a, b), Dot(p[1][3], p[2][3])>>
KeyBag(A) == LET K == {Key(p) : p \in A} IN {Append(k, Cardinality({p \in A : Key(p) = k})) : k \in K}
=============================================================================
