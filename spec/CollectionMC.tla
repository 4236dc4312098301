----------------------------- MODULE CollectionMC -----------------------------
(* Clients load a trajectory, cut collections out of collections in any order and store them. *)
EXTENDS MovementMC
CO == INSTANCE Collection
CONSTANTS Slow
(* collections and directories are functions of the history *)
RECURSIVE Cols(_), Dir(_, _)
Cols(h) == IF h = <<>> THEN <<[k \in 1..Len(frames) |-> k]>> ELSE LET p == SubSeq(h, 1, Len(h) - 1) IN Cols(p) \o CO!Derived(Cols(p), h[Len(h)])
Dir(h, d) == IF h = <<>> THEN CO!NoDir ELSE LET p == SubSeq(h, 1, Len(h) - 1)
                                                 e == h[Len(h)]
             IN IF e.op \in {"to", "save"} /\ e.d = d THEN CO!Stored(Dir(p, d), Cols(p), e) ELSE Dir(p, d)
Quick == {"slice", "item", "pick", IF Slow > 0 THEN "pick" ELSE "about", "to", "to", "show"}
Pow3(i) == <<R({1, 3}), R({1, 3}), R({1, 3})>>
CAsk == /\ phase = "ask" /\ Len(hist) < Depth
        /\ \E cs \in {Cols(hist)} : \E c \in {IF R(1..2) = 1 THEN Len(cs) ELSE R(1..Len(cs))} : \E n \in {Len(cs[c])} : \E kd \in {R(IF R(1..10) <= Slow THEN (IF n \in {10, 99, 100, 101} THEN {"save"} ELSE {"save", "nbrs", "elnbrs"}) ELSE IF Slow > 0 /\ R(1..2) = 1 THEN {"pick"} ELSE Quick)} :
             hist' = Append(hist,
               CASE kd = "slice" -> [op |-> kd, c |-> c, a |-> R((-n - 1)..(n + 1)), b |-> R((-n - 1)..(n + 1)), s |-> R({1, 1, 2, 3, -1, -1, -2, -3} \ {IF R(1..2) = 1 THEN -1 ELSE 1})]
                 [] kd = "item" -> [op |-> kd, c |-> c, i |-> R((-n - 1)..n)]
                 [] kd = "pick" -> [op |-> kd, c |-> c, ix |-> [j \in 1..(IF Slow > 0 /\ Len(zs) <= 2 /\ R(1..6) = 1 THEN R({99, 100, 100, 101}) ELSE IF R(1..4) = 1 THEN R({9, 10, 10, 11}) ELSE R(1..5)) |-> IF R(1..12) = 1 /\ j < 12 /\ R(1..2) = 1 THEN R({n, -n - 1, n + 1}) ELSE R((-n)..(n - 1))]]
                 [] kd = "to" -> [op |-> kd, c |-> c, d |-> R(1..2), size |-> R(1..4)]
                 [] kd = "save" -> [op |-> kd, c |-> c, d |-> R(1..2), scale |-> Pow3(1)]
                 [] kd = "nbrs" -> [op |-> kd, c |-> c, rch |-> 2 * R(61..199) + 1, scale |-> Pow3(1)]
                 [] kd = "elnbrs" -> [op |-> kd, c |-> c, rch |-> 2 * R(61..199) + 1, scale |-> Pow3(1), els |-> <<R({6, zs[1]}), zs[Len(zs)]>>]
                 [] OTHER -> [op |-> kd, c |-> c])
        /\ UNCHANGED <<phase, opts, zs, frames>>
CNext == Retry \/ PickOpts \/ AddFrame \/ CAsk \/ Finish
(* every collection holds frames of the trajectory; the sets of a directory, joined, are the collection they came from *)
Held == phase \in {"ask", "done"} => \A i \in 1..Len(Cols(hist)) : LET c == Cols(hist)[i] IN c # <<>> /\ \A k \in 1..Len(c) : c[k] \in 1..Len(frames)
SetsJoin == phase = "done" => \A i \in 1..Len(Cols(hist)) : \A z \in 1..5 : LET c == Cols(hist)[i]
                                                                                ss == CO!Sets(c, z) IN
              CO!Joined(ss) = c /\ \A k \in 1..Len(ss) : Len(ss[k]) <= z /\ (k < Len(ss) => Len(ss[k]) = z) /\ ss[k] # <<>>
LastWins == phase = "done" => \A j \in 1..Len(hist) : (hist[j].op = "to" /\ \A m \in (j + 1)..Len(hist) : hist[m].op # "to" \/ hist[m].d # hist[j].d)
              => CO!Joined(Dir(hist, hist[j].d).sets) = Cols(SubSeq(hist, 1, j - 1))[hist[j].c]
Stale == phase = "done" => \A d \in 1..2 : \A x, y \in Dir(hist, d).imgs : x.name = y.name => x = y
=============================================================================
