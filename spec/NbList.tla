------------------------------- MODULE NbList -------------------------------
(***************************************************************************)
(* The compiled neighbour list: what one query must answer.                 *)
(* A query is a structure on the grid (cell, pos, z), the periodicity       *)
(* flags, a cutoff of rch half grid units, the table width umax and the     *)
(* sort flag.  Reply: per atom the neighbour indices (0-based), the vectors *)
(* to them, the counts, the atom list and the species table.                *)
(***************************************************************************)
EXTENDS Crystal

Within(d2, rch) == 4 * d2 < rch * rch

(* a query may be on a finer grid: fz fine units per unit, sites moved by jit fine units, cutoff of rcf half fine units *)
IsFine(qy) == "fz" \in DOMAIN qy
FinePos(qy) == IF IsFine(qy) THEN [i \in 1..Len(qy.pos) |-> VAdd(VMul(qy.fz, qy.pos[i]), qy.jit[i])] ELSE qy.pos
Expected(qy) ==
  LET fine == IsFine(qy)
      rcCeil == ((qy.rch + 1) \div 2) + (IF fine THEN 1 ELSE 0)
      pos == FinePos(qy)
      sh == Shifts(IF fine THEN MScale(qy.fz, qy.cell) ELSE qy.cell, ReachOf(qy.cell, qy.pos, qy.pbc, rcCeil))
      In(d2) == Within(d2, IF fine THEN qy.rcf ELSE qy.rch)
  IN  [i \in 1..Len(qy.pos) |-> NbrsOf(pos, i, sh, In)]

ObsSet(r, i) == { << r.firstneigh[i][k] + 1, r.rel[i][k] >> : k \in 1..r.numneigh[i] }

(* clauses of property P01 *)
FailExact(qy, r) ==
  LET ex == Expected(qy)
      n == Len(qy.pos)
      shape == Len(r.numneigh) = n /\ Len(r.firstneigh) = n /\ Len(r.rel) = n
               /\ \A i \in 1..n : r.numneigh[i] >= 0 /\ r.numneigh[i] <= Len(r.firstneigh[i]) /\ r.numneigh[i] <= Len(r.rel[i])
  IN  IF ~shape THEN {"the reply has one row per atom and no row exceeds its width"}
      ELSE (IF \A i \in 1..n : ex[i] \subseteq ObsSet(r, i) THEN {} ELSE {"every periodic image inside the cutoff is listed"})
      \cup (IF \A i \in 1..n : ObsSet(r, i) \subseteq ex[i] THEN {} ELSE {"nothing but images inside the cutoff is listed, with its owner and offset"})
      \cup (IF \A i \in 1..n : Cardinality(ObsSet(r, i)) = r.numneigh[i] THEN {} ELSE {"no image is listed twice"})

(* clauses of property P02 *)
FailTable(qy, r) ==
  LET n == Len(qy.pos)
      shape == Len(r.numneigh) = n /\ Len(r.firstneigh) = n /\ Len(r.rel) = n
               /\ \A i \in 1..n : r.numneigh[i] >= 0 /\ r.numneigh[i] <= qy.umax /\ Len(r.firstneigh[i]) = qy.umax /\ Len(r.rel[i]) = qy.umax
  IN  IF ~shape THEN {"rows are as wide as requested"}
      ELSE (IF r.inum = n /\ r.ilist = [i \in 1..n |-> i - 1] THEN {} ELSE {"the atom list names every atom once in order"})
      \cup (IF r.types = qy.z THEN {} ELSE {"the species table gives each atom its species"})
      \cup (IF \A i \in 1..n : \A k \in 1..qy.umax :
                 IF k <= r.numneigh[i] THEN r.firstneigh[i][k] \in 0..(n - 1)
                 ELSE r.firstneigh[i][k] = -1 /\ r.rel[i][k] = Zero3
            THEN {} ELSE {"used entries come first and the rest is padding"})
      \cup (IF qy.sort => \A i \in 1..n : \A k \in 1..(r.numneigh[i] - 1) : Norm2(r.rel[i][k]) <= Norm2(r.rel[i][k + 1])
            THEN {} ELSE {"sorted rows run from near to far"})
      \cup (IF \A i \in 1..n : \A k \in 1..r.numneigh[i] :
                 r.firstneigh[i][k] \notin 0..(n - 1) \/
                 LET j == r.firstneigh[i][k] + 1 IN
                 \E m \in 1..r.numneigh[j] : r.firstneigh[j][m] = i - 1 /\ r.rel[j][m] = VNeg(r.rel[i][k])
            THEN {} ELSE {"being neighbours is mutual"})
=============================================================================
