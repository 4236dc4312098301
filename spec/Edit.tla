--------------------------------- MODULE Edit ---------------------------------
(***************************************************************************)
(* Editing a structure: a sequence of sites [z, f (K-ths of the cell), m].  *)
(* z = 0 is a vacancy.  Sorting is stable; picking elements keeps each      *)
(* atom's own position and moment; removing vacancies removes nothing else. *)
(***************************************************************************)
EXTENDS Crystal
NoVac(s) == \A i \in 1..Len(s) : s[i].z # 0
Zs(s) == {s[i].z : i \in 1..Len(s)}
RECURSIVE SortZ(_, _)
SortZ(s, zs) == IF zs = {} THEN <<>> ELSE
  LET z == CHOOSE x \in zs : \A y \in zs : x <= y IN SelectSeq(s, LAMBDA t : t.z = z) \o SortZ(s, zs \ {z})
RECURSIVE PickIn(_, _)
PickIn(s, order) == IF order = <<>> THEN <<>> ELSE SelectSeq(s, LAMBDA t : t.z = Head(order)) \o PickIn(s, Tail(order))
NoVacs(s) == SelectSeq(s, LAMBDA t : t.z # 0)
After(s, o) == CASE o.op = "sort" -> SortZ(s, Zs(s))
                 [] o.op = "pick" -> PickIn(s, o.order)
                 [] o.op = "vac" -> NoVacs(s)
                 [] OTHER -> s
Ok(s, o) == CASE o.op = "pick" -> NoVac(s) /\ PickIn(s, o.order) # <<>>
              [] o.op = "vac" -> NoVacs(s) # <<>>
              [] o.op = "natoms" -> NoVac(s)
              [] OTHER -> TRUE
CountZ(s, z) == Cardinality({i \in 1..Len(s) : s[i].z = z})
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE x \in S : \A y \in S : x <= y IN <<z>> \o Asc(S \ {z})
Natoms(s, order) == LET o == IF order = <<>> THEN Asc(Zs(s)) ELSE order
                    IN <<Len(s)>> \o [k \in 1..Len(o) |-> CountZ(s, o[k])]
Same(s, K, f) == {i \in 1..Len(s) : (s[i].f[1] - f[1]) % K = 0 /\ (s[i].f[2] - f[2]) % K = 0 /\ (s[i].f[3] - f[3]) % K = 0}
SiteIndex(s, K, f) == LET S == Same(s, K, f) IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
=============================================================================
