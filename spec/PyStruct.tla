------------------------------- MODULE PyStruct -------------------------------
(***************************************************************************)
(* The Python structure layer: odd replication around the original cell,   *)
(* neighbour tables with the centre first, neighbour counts, PWmat index   *)
(* lists, adjacency counts.  A structure is [cell, pos, z] on the grid.     *)
(***************************************************************************)
EXTENDS Crystal

Half(s) == [k \in 1..3 |-> (s[k] - 1) \div 2]
PyShifts(st, s) == Shifts(st.cell, Half(s))
(* all atoms of the replica: << owner, position >> *)
Replica(st, s) == UNION { { <<i, VAdd(st.pos[i], t)>> : t \in PyShifts(st, s) } : i \in 1..Len(st.pos) }
(* atoms by ascending species, otherwise in their order *)
CentreOrder(st) == CHOOSE o \in [1..Len(st.pos) -> 1..Len(st.pos)] :
   \A a, b \in 1..Len(st.pos) : a < b => (st.z[o[a]] < st.z[o[b]] \/ (st.z[o[a]] = st.z[o[b]] /\ o[a] < o[b]))
(* an explicit construction of the same order, cheap for TLC *)
RECURSIVE OrderFrom(_, _)
OrderFrom(st, left) == IF left = {} THEN <<>> ELSE
   LET best == CHOOSE a \in left : \A b \in left : st.z[a] < st.z[b] \/ (st.z[a] = st.z[b] /\ a <= b)
   IN <<best>> \o OrderFrom(st, left \ {best})
Order(st) == OrderFrom(st, 1..Len(st.pos))

PyWithin(d2, rch) == 4 * d2 <= rch * rch
(* neighbours of atom i inside the replica: << owner, vector >> *)
PyNbrs(st, s, rch, i) ==
  { <<e[1], VSub(e[2], st.pos[i])>> : e \in { r \in Replica(st, s) :
        r[2] # st.pos[i] /\ PyWithin(Norm2(VSub(r[2], st.pos[i])), rch) } }

MaxOver(S, f(_)) == SetMax({f(x) : x \in S})

(* ---- P07: replication *)
FailPySuper(st, e) ==
  LET n == Len(st.pos)
      tot == n * e.scale[1] * e.scale[2] * e.scale[3]
      shape == Len(e.z) = tot /\ Len(e.xyz) = tot
      obs == { <<e.z[k], e.xyz[k]>> : k \in 1..tot }
      want == { <<st.z[r[1]], r[2]>> : r \in Replica(st, e.scale) }
      o == Order(st)
  IN IF e.err # "" THEN {"replication by odd factors succeeds"} ELSE
     (IF e.lattice = << VMul(e.scale[1], st.cell[1]), VMul(e.scale[2], st.cell[2]), VMul(e.scale[3], st.cell[3]) >> THEN {} ELSE {"the lattice is scaled"})
     \cup IF ~shape THEN {"the replica has every copy once"} ELSE
     (IF obs = want /\ Cardinality(obs) = tot THEN {} ELSE {"the replica has every copy once"})
     \cup (IF e.sorted => Sorted(e.z) THEN {} ELSE {"atoms are ordered by species on request"})
     \cup (IF e.sorted \/ \A i \in 1..n : e.z[i] = st.z[i] /\ e.xyz[i] = st.pos[i] THEN {} ELSE {"unsorted, the original cell comes first"})
     \cup (IF ~e.sorted \/ (Len(e.key) = n /\ \A i \in 1..n : e.key[i] \in 0..(tot - 1)
               /\ e.z[e.key[i] + 1] = st.z[o[i]] /\ e.xyz[e.key[i] + 1] = st.pos[o[i]])
           THEN {} ELSE {"the original atoms are found in the replica"})

(* ---- P05: the neighbour table *)
FailPyNbr(st, e) ==
  LET n == Len(st.pos)
      o == Order(st)
      ex == [i \in 1..n |-> PyNbrs(st, e.scale, e.rch, o[i])]
      width == 1 + MaxOver(1..n, LAMBDA i : Cardinality(ex[i]))
      shape == Len(e.z) = n /\ Len(e.xyz) = n /\ Len(e.d2) = n
               /\ \A i \in 1..n : Len(e.z[i]) = width /\ Len(e.xyz[i]) = width /\ Len(e.d2[i]) = width
  IN IF e.err # "" THEN {"the neighbour table is built"} ELSE
     IF ~shape THEN {"one row per atom, as wide as the fullest"} ELSE
     (IF \A i \in 1..n : e.z[i][1] = st.z[o[i]] /\ e.xyz[i][1] = st.pos[o[i]] /\ e.d2[i][1] = 0
      THEN {} ELSE {"each row starts with its centre, by ascending species"})
     \cup (IF \A i \in 1..n : LET c == Cardinality(ex[i]) IN
              { <<e.z[i][k], VSub(e.xyz[i][k], st.pos[o[i]])>> : k \in 2..(c + 1) } = { <<st.z[x[1]], x[2]>> : x \in ex[i] }
           THEN {} ELSE {"the row lists exactly the copies within the cutoff"})
     \cup (IF \A i \in 1..n : \A k \in 1..(Cardinality(ex[i]) + 1) : e.d2[i][k] = Norm2(VSub(e.xyz[i][k], st.pos[o[i]]))
           THEN {} ELSE {"each distance belongs to its atom"})
     \cup (IF \A i \in 1..n : \A k \in 1..Cardinality(ex[i]) : e.d2[i][k] <= e.d2[i][k + 1] THEN {} ELSE {"rows run from near to far"})
     \cup (IF \A i \in 1..n : \A k \in (Cardinality(ex[i]) + 2)..width : e.z[i][k] = 0 /\ e.d2[i][k] = 0 /\ e.xyz[i][k] = Zero3
           THEN {} ELSE {"the rest of a row is zero"})

(* ---- P06: counts and index lists *)
CountOf(ex, z, zz) == Cardinality({x \in ex : z[x[1]] = zz})
FailPyCount(st, e) ==
  LET n == Len(st.pos)
      ex == [i \in 1..n |-> PyNbrs(st, e.scale, e.rch, i)]
  IN IF e.err # "" THEN {"the counts are computed"} ELSE
     (IF e.max = MaxOver(1..n, LAMBDA i : Cardinality(ex[i])) THEN {} ELSE {"the largest neighbour count"})
     \cup (IF \A k \in 1..Len(e.els) : e.elmax[k] = MaxOver(1..n, LAMBDA i : CountOf(ex[i], st.z, e.els[k]))
           THEN {} ELSE {"the largest neighbour count per element"})

CentresOf(st, zz) == SelectSeq([i \in 1..Len(st.pos) |-> i], LAMBDA i : st.z[i] = zz)
SegOk(seg, ex, z, zz) ==
  LET mine == {x \in ex : z[x[1]] = zz}
      c == Cardinality(mine)
      ds == {Norm2(x[2]) : x \in mine}
      Cnt(own, lim) == Cardinality({x \in mine : x[1] = own /\ Norm2(x[2]) <= lim})
      Upto(d) == Cardinality({x \in mine : Norm2(x[2]) <= d})
  IN /\ c <= Len(seg)
     /\ \A k \in (c + 1)..Len(seg) : seg[k] = 0
     /\ \A d \in ds : \A own \in {x[1] : x \in mine} :
          Cardinality({k \in 1..Upto(d) : seg[k] = own}) = Cnt(own, d)
RECURSIVE Concat(_, _)
Concat(f, k) == IF k = 0 THEN <<>> ELSE Concat(f, k - 1) \o f[k]
FailPyIdx(st, e) ==
  LET centres == Concat([k \in 1..Len(e.cz) |-> CentresOf(st, e.cz[k])], Len(e.cz))
      off(k) == SumSeq(SubSeq(e.nmax, 1, k - 1))
      shape == Len(e.rows) = Len(centres) /\ \A r \in 1..Len(e.rows) : Len(e.rows[r]) = SumSeq(e.nmax)
  IN IF e.err # "" THEN {"the index list is built"} ELSE
     IF ~shape THEN {"one row per centre, one padded segment per neighbour element"} ELSE
     IF \A r \in 1..Len(centres) : LET ex == PyNbrs(st, e.scale, e.rch, centres[r]) IN
          \A k \in 1..Len(e.nz) : SegOk(SubSeq(e.rows[r], off(k) + 1, off(k) + e.nmax[k]), ex, st.z, e.nz[k])
     THEN {} ELSE {"a segment names the neighbours' owners from near to far, then 0"}

(* ---- P08: adjacency counts *)
FailPyAdj(st, e) ==
  LET n == Len(st.pos) IN
  IF e.even THEN (IF e.err # "" THEN {} ELSE {"even factors are refused"}) ELSE
  IF e.err # "" THEN {"the adjacency matrix is built"} ELSE
  IF Len(e.a) # n \/ \E i \in 1..n : Len(e.a[i]) # n THEN {"the matrix is square"} ELSE
  LET ex == [i \in 1..n |-> PyNbrs(st, e.scale, e.rch, i)] IN
  (IF \A i, j \in 1..n : e.a[i][j] = Cardinality({x \in ex[i] : x[1] = j}) THEN {} ELSE {"an entry counts the copies of j within reach of i"})
  \cup (IF \A i, j \in 1..n : e.a[i][j] = e.a[j][i] THEN {} ELSE {"adjacency is symmetric"})
=============================================================================
