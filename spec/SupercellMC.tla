----------------------------- MODULE SupercellMC -----------------------------
(* Replication is consistent for every scaling up to MaxScale: the copies tile the scaled *)
(* box (no two coincide, their number is right) and the original sites are among them.    *)
EXTENDS Supercell, TLC, Json
CONSTANTS Cells, Sites, MaxScale
VARIABLES phase, e
Init == phase = "pick" /\ e = [qy |-> [cell |-> <<>>, pos |-> <<>>, frac |-> <<>>, z |-> <<>>, cart |-> TRUE], scale |-> <<1,1,1>>, ptrs |-> 0]
Pick == phase = "pick" /\ phase' = "scale" /\
        \E c \in Cells, s \in Sites, b \in BOOLEAN :
          e' = [e EXCEPT !.qy = [cell |-> MScale(2, c), frac |-> s, pos |-> [i \in 1..Len(s) |-> Comb(s[i], c)], z |-> [i \in 1..Len(s) |-> 5 + i], cart |-> b]]
Scale == phase = "scale" /\ phase' = "done" /\ \E a, b, c \in 1..MaxScale, p \in {0, 1} : e' = [e EXCEPT !.scale = <<a, b, c>>, !.ptrs = p]
Next == Pick \/ Scale
Done == phase = "done"
Tiles == Done => Cardinality(Copies(e.qy, e.scale)) = Len(e.qy.pos) * e.scale[1] * e.scale[2] * e.scale[3]
Holds == Done => \A i \in 1..Len(e.qy.pos) : <<i, e.qy.pos[i]>> \in Copies(e.qy, e.scale)
PrintCase == Done => PrintT("VFCASE " \o ToJson(e))
MCells == { <<<<3,0,0>>,<<0,4,0>>,<<0,0,5>>>>, <<<<4,0,0>>,<<-2,3,0>>,<<0,1,6>>>>, <<<<0,4,0>>,<<0,0,3>>,<<5,1,0>>>> }
MSites == { << <<0,0,0>> >>, << <<0,1,0>>, <<1,0,1>> >>, << <<1,1,1>>, <<0,0,0>>, <<0,1,1>> >> }
=============================================================================
