------------------------------ MODULE Collection ------------------------------
(***************************************************************************)
(* A collection of frames taken from a trajectory, cut and re-ordered by   *)
(* its clients, and stored: as training sets (dpdata layout) or as one     *)
(* directory per image.  A collection is the sequence of the frames (their *)
(* numbers in the trajectory) it holds; a directory remembers what was     *)
(* stored in it last.                                                      *)
(***************************************************************************)
EXTENDS Movement, TLC
C == INSTANCE Crystal
PS == INSTANCE PyStruct
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
(* indices count from 0, negative ones from the end *)
Known(n, i) == i >= -n /\ i < n
At(c, i) == c[IF i < 0 THEN Len(c) + i + 1 ELSE i + 1]
Bound(n, i) == Max2(0, Min2(n, IF i < 0 THEN i + n ELSE i))
(* backwards: from a down to, not including, b; -1 stands before the first *)
BoundB(n, i) == Max2(-1, Min2(n - 1, IF i < 0 THEN i + n ELSE i))
Backwards(c, a, b, s) == LET hi == BoundB(Len(c), a)
                             lo == BoundB(Len(c), b)
                             cnt == IF hi <= lo THEN 0 ELSE ((hi - lo - 1) \div s) + 1
                         IN [j \in 1..cnt |-> c[hi - (j - 1) * s + 1]]
SliceOf(c, a, b, s) == IF s < 0 THEN Backwards(c, a, b, -s) ELSE
                       LET lo == Bound(Len(c), a)
                           hi == Bound(Len(c), b)
                           cnt == IF hi <= lo THEN 0 ELSE ((hi - lo - 1) \div s) + 1
                       IN [j \in 1..cnt |-> c[lo + (j - 1) * s + 1]]
PickOf(c, ix) == [j \in 1..Len(ix) |-> At(c, ix[j])]
(* the collections after an operation *)
Derived(cols, e) ==
  CASE e.op = "slice" -> LET r == SliceOf(cols[e.c], e.a, e.b, e.s) IN IF r = <<>> THEN <<>> ELSE <<r>>
    [] e.op = "item" -> IF Known(Len(cols[e.c]), e.i) THEN << <<At(cols[e.c], e.i)>> >> ELSE <<>>
    [] e.op = "pick" -> IF \A j \in 1..Len(e.ix) : Known(Len(cols[e.c]), e.ix[j]) THEN <<PickOf(cols[e.c], e.ix)>> ELSE <<>>
    [] OTHER -> <<>>
(* the sets a collection of n frames is stored as *)
Sets(c, size) == [k \in 1..((Len(c) + size - 1) \div size) |-> SubSeq(c, (k - 1) * size + 1, Min2(Len(c), k * size))]
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Joined(SubSeq(ss, 2, Len(ss)))
RECURSIVE Padded(_, _)
Padded(str, w) == IF Len(str) >= w THEN str ELSE Padded("0" \o str, w)
SetName(k) == "set." \o Padded(ToString(k - 1), 3)
ImgName(n, k) == Padded(ToString(k - 1), Len(ToString(n)))
(* a directory: the collection stored as sets (<<>> for none), the size asked for, the images by name *)
NoDir == [sets |-> <<>>, imgs |-> {}]
Stored(d, cols, e) ==
  CASE e.op = "to" -> [sets |-> Sets(cols[e.c], e.size), imgs |-> {}]
    [] e.op = "save" -> LET c == cols[e.c]
                            new == {[name |-> ImgName(Len(c), k), f |-> c[k], scale |-> e.scale] : k \in 1..Len(c)}
                        IN [d EXCEPT !.imgs = new \cup {x \in d.imgs : \A y \in new : y.name # x.name}]
(* what a frame says, on the grid: positions in fortieths of an angstrom *)
GridSt(l) == LET L == [r \in 1..3 |-> [c \in 1..3 |-> ReadLattice(l)[r][c] \div 1000]] IN
   [cell |-> C!MScale(4, L), z |-> ReadZ(l), pos |-> [i \in 1..Count(l) |-> C!Comb([c \in 1..3 |-> ReadF(l)[i][c] \div 250000], L)]]
Eatom(l) == IF Has(l, "energy") THEN ReadEatom(l) ELSE [i \in 1..Count(l) |-> 0]
Stress(l) == IF HasStress(l) THEN Flat3(ReadStress(l)) ELSE [i \in 1..9 |-> 0]
Some(seqs) == \E i \in 1..Len(seqs) : \E j \in 1..Len(seqs[i]) : seqs[i][j] # 0
(* the elements in the order they appear, and how many atoms of each *)
RECURSIVE Firsts(_)
Firsts(z) == IF z = <<>> THEN <<>> ELSE LET r == Firsts(SubSeq(z, 1, Len(z) - 1)) IN
             IF \E i \in 1..Len(r) : r[i] = z[Len(z)] THEN r ELSE Append(r, z[Len(z)])
NumOf(z, v) == Cardinality({i \in 1..Len(z) : z[i] = v})
Place(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
Nbrs(l, e, i) == PS!PyNbrs(GridSt(l), e.scale, e.rch, i)
MaxNbrs(fr, c, e) == C!SetMax(UNION {{Cardinality(Nbrs(fr[c[k]].lines, e, i)) : i \in 1..Count(fr[c[k]].lines)} : k \in 1..Len(c)})
MaxNbrsOf(fr, c, e, z) == C!SetMax(UNION {LET l == fr[c[k]].lines IN {Cardinality({x \in Nbrs(l, e, i) : ReadZ(l)[x[1]] = z}) : i \in 1..Count(l)} : k \in 1..Len(c)})
=============================================================================
