------------------------------ MODULE NbListFine ------------------------------
(* Queries of NbListGen on a grid 32 times finer: every site is moved by at most one fine unit, and the cutoff is put right at the distance of some neighbour. *)
EXTENDS NbListGen
Fz == 32
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN RootIn(x, m, hi) ELSE RootIn(x, lo, m)
(* the squared distance least below the square of half a whole number *)
Gap(d) == LET r == RootIn(4 * d, 0, 46340) + 1 IN r * r - 4 * d
Closest(all) == LET G == [d \in all |-> Gap(d)] IN CHOOSE d \in all : \A x \in all : G[d] <= G[x]
Refine == /\ phase = "asked" /\ phase' = "fine" /\ UNCHANGED <<K, M, far>>
          /\ \E j \in {[i \in 1..Len(qy.pos) |-> <<R(-1..1), R(-1..1), R(-1..1)>>]} :
             \E q \in {[cell |-> qy.cell, pbc |-> qy.pbc, pos |-> qy.pos, frac |-> qy.frac, z |-> qy.z, rch |-> qy.rch, umax |-> 0, sort |-> qy.sort, cart |-> TRUE, fz |-> Fz, jit |-> j, rcf |-> Fz * qy.rch]} :
             \E all \in {UNION {{Norm2(x[2]) : x \in Expected(q)[i]} : i \in 1..Len(qy.pos)}} :
               \E r \in {IF all = {} THEN Fz * qy.rch ELSE IF R(1..2) = 1 THEN RootIn(4 * Closest(all), 0, 46340) + 1 ELSE RootIn(4 * (IF Dense THEN SetMax(all) ELSE R(all)), 0, 46340) + R(0..1)} :
                  qy' = [q EXCEPT !.rcf = IF \E d \in all : 4 * d = r * r THEN r + 1 ELSE r]      \* beside the distances, never on one
FNext == Next \/ Refine
PrintFine == phase = "fine" => PrintT("VFCASE " \o ToJson([qy |-> qy, K |-> K, M |-> M]))
(* the finer grid keeps what is clearly inside *)
Kept == phase = "fine" => \A i \in 1..Len(qy.pos) : \A x \in Expected(qy)[i] : 4 * Norm2(x[2]) < qy.rcf * qy.rcf
=============================================================================
