------------------------------ MODULE Supercell ------------------------------
(***************************************************************************)
(* Replicating a crystal.  A supercell of scaling <<s1,s2,s3>> holds every  *)
(* site once in each of the s1*s2*s3 cells  lo..hi  around the original     *)
(* one, in blocks of the original sites; the owned atoms are the original   *)
(* sites themselves.                                                        *)
(***************************************************************************)
EXTENDS NbList

Lo(s) == IF s % 2 = 0 THEN 1 - s \div 2 ELSE -((s - 1) \div 2)
Hi(s) == IF s % 2 = 0 THEN s \div 2 ELSE (s - 1) \div 2
CellsOf(sc) == { <<a, b, c>> : a \in Lo(sc[1])..Hi(sc[1]), b \in Lo(sc[2])..Hi(sc[2]), c \in Lo(sc[3])..Hi(sc[3]) }
Copies(qy, sc) == { << i, VAdd(qy.pos[i], Comb(n, qy.cell)) >> : i \in 1..Len(qy.pos), n \in CellsOf(sc) }
ScaledCell(c, sc) == << VMul(sc[1], c[1]), VMul(sc[2], c[2]), VMul(sc[3], c[3]) >>

(* what any structure object says about its own geometry; M: cell entries are in M-ths of the length unit *)
ColumnSum(c, a) == Abs(c[1][a]) + Abs(c[2][a]) + Abs(c[3][a])
Corners(o, c) == { VAdd(o, Comb(n, c)) : n \in {<<a, b, d>> : a \in {0,1}, b \in {0,1}, d \in {0,1}} }
FailBox(s, c, o) ==
  (IF s.projected = [a \in 1..3 |-> ColumnSum(c, a)] THEN {} ELSE {"projected lengths are the cell's extent along x, y and z"})
  \cup (IF \A a \in 1..3 : /\ s.lim[a][1] = CHOOSE x \in {p[a] : p \in Corners(o, c)} : \A p \in Corners(o, c) : x <= p[a]
                          /\ s.lim[a][2] = CHOOSE x \in {p[a] : p \in Corners(o, c)} : \A p \in Corners(o, c) : x >= p[a]
        THEN {} ELSE {"the limits are those of the cell's corners"})
(* spacing of lattice planes: d = |det| / |cross|, reported in hundredths of 1/M *)
Plane(c, k) == IF k = 1 THEN Cross(c[2], c[3]) ELSE IF k = 2 THEN Cross(c[3], c[1]) ELSE Cross(c[1], c[2])
FailPlanes(s, c, k0) ==     \* k0: grid refinement, c = k0 * unit cell
  LET u == [i \in 1..3 |-> << c[i][1] \div k0, c[i][2] \div k0, c[i][3] \div k0 >>]
      big == 10000 * Det(u) * Det(u)
  IN IF \A k \in 1..3 : /\ s.planes[k] >= 1 /\ s.planes[k] < 3000
          /\ (s.planes[k] - 1) * (s.planes[k] - 1) * Norm2(Plane(u, k)) <= big
          /\ (s.planes[k] + 1) * (s.planes[k] + 1) * Norm2(Plane(u, k)) >= big
     THEN {} ELSE {"plane spacings are volume over face area"}

FailPrim(qy, s, k0) ==
  (IF s.n = Len(qy.pos) /\ s.basis = qy.cell /\ s.z = qy.z /\ s.xyz = qy.pos /\ s.origin = Zero3 THEN {}
   ELSE {"a structure reports the cell, species and positions it was built from"})
  \cup FailBox(s, qy.cell, Zero3) \cup FailPlanes(s, qy.cell, k0)

FailSuper(e) ==
  LET qy == e.qy
      np == Len(qy.pos)
      sc == e.scale
      nc == sc[1] * sc[2] * sc[3]
      s == e.sup
      o == Comb(<<Lo(sc[1]), Lo(sc[2]), Lo(sc[3])>>, qy.cell)
      shape == s.n = np * nc /\ Len(s.z) = s.n /\ Len(s.xyz) = s.n /\ Len(e.owned) = np
  IN  FailPrim(qy, e.prim, e.K)
      \cup (IF e.same = e.prim THEN {} ELSE {"building a supercell leaves the original alone"})
      \cup (IF ~shape \/ e.np # np \/ e.ns # np * nc THEN {"the supercell has as many atoms as sites times cells"} ELSE
         (IF s.basis = ScaledCell(qy.cell, sc) /\ s.origin = o THEN {} ELSE {"the supercell's box is the scaled cell, centred on the original"})
         \cup (IF { << ((k - 1) % np) + 1, s.xyz[k] >> : k \in 1..s.n } = Copies(qy, sc) THEN {} ELSE {"every site is copied exactly once into every cell"})
         \cup (IF \A k \in 1..s.n : s.z[k] = qy.z[((k - 1) % np) + 1] THEN {} ELSE {"copies keep their site's species"})
         \cup (IF \A i \in 1..np : e.owned[i] \in 0..(s.n - 1) /\ s.xyz[e.owned[i] + 1] = qy.pos[i] /\ s.z[e.owned[i] + 1] = qy.z[i] THEN {}
               ELSE {"the owned atoms are the original sites"})
         \cup (IF e.cellxyz = [a \in 1..3 |-> -Lo(sc[a])] THEN {} ELSE {"the original cell's position in the supercell is reported"})
         \cup FailBox(s, ScaledCell(qy.cell, sc), o))

(* neighbour counts reported by a neighbour list *)
FailCounts(e) ==
  LET ex == Expected(e.qy)
      n == Len(e.qy.pos)
      Cnt(i, zz) == Cardinality({x \in ex[i] : e.qy.z[x[1]] = zz})
  IN  (IF e.n = n THEN {} ELSE {"a neighbour list is centred on the original sites"})
      \cup (IF e.max = SetMax({Cardinality(ex[i]) : i \in 1..n}) THEN {} ELSE {"the largest neighbour count is the maximum over the atoms"})
      \cup (IF \A k \in 1..Len(e.pairs) : e.pairs[k][3] = SetMax({0} \cup {Cnt(i, e.pairs[k][2]) : i \in {j \in 1..n : e.qy.z[j] = e.pairs[k][1]}})
            THEN {} ELSE {"the largest count per species pair is the maximum over the atoms of that species"})
=============================================================================
