-------------------------------- MODULE EditMC --------------------------------
EXTENDS Edit, TLC, Json
CONSTANTS Mode, MaxSites, Depth
VARIABLES phase, sites, start, hist, magmom, K, cell
vars == <<phase, sites, start, hist, magmom, K, cell>>
R(S) == RandomElement(S)
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET y == R(S) IN <<y>> \o Perm(S \ {y})
Pos(i) == CASE i = 1 -> <<1, 0, 1>> [] i = 2 -> <<0, 0, 0>> [] OTHER -> <<-1, 1, 4>>
MScale1(k, v) == LET j == k IN <<j * v[1], j * v[2], j * v[3]>>
Init == phase = "sites" /\ sites = <<>> /\ start = <<>> /\ hist = <<>> /\ magmom = FALSE /\ K = 3 /\ cell = <<<<9,0,0>>,<<-3,12,0>>,<<0,3,45>>>>
AddAll == /\ Mode = "all" /\ phase = "sites" /\ Len(sites) < MaxSites
          /\ \E z \in {0, 3, 8} : sites' = Append(sites, [z |-> z, f |-> Pos(Len(sites) + 1), m |-> 10 * Len(sites) + 7])
          /\ UNCHANGED <<phase, start, hist, magmom, K, cell>>
AddRnd == /\ Mode = "random" /\ phase = "sites" /\ Len(sites) < MaxSites
          /\ \E f \in {<<R(-2..(K+1)), R(0..(K-1)), R(0..(K-1))>>}, z \in {R({0, 1, 3, 3, 8, 8, 14, 42, R(1..118)})} :
               /\ Same(sites, K, f) = {}
               /\ sites' = Append(sites, [z |-> z, f |-> f, m |-> R(-300..300)])
          /\ UNCHANGED <<phase, start, hist, magmom, K, cell>>
PickCell == /\ Mode = "random" /\ phase = "sites" /\ sites = <<>>
            /\ K' = R({2, 3, 4, 5, 12, 200})
            /\ \E c \in {LET g(i) == R({-1, 1, 1}) IN << MScale1(g(1), <<R(3..40), R(-2..2), 0>>), MScale1(g(2), <<R(-2..2), R(3..14), R(-2..2)>>), MScale1(g(3), <<0, R(-2..2), R(3..40)>>) >>} :
                  Abs(Det(c)) > 10 /\ cell' = MScale(K', c)
            /\ UNCHANGED <<phase, sites, start, hist, magmom>>
Ready == /\ phase = "sites" /\ sites # <<>> /\ (Mode = "all" \/ R(1..3) = 1) /\ phase' = "edit" /\ start' = sites
         /\ \E b \in (IF Mode = "all" THEN BOOLEAN ELSE {R(BOOLEAN)}) : magmom' = b
         /\ UNCHANGED <<sites, hist, K, cell>>
Orders(u) == IF Mode = "all" THEN {<<3, 8>>, <<8, 3>>, <<8>>} ELSE {R({<<3, 8>>, <<8, 3>>, <<42, 8, 1>>, <<14, 3, 8, 1, 42>>, <<8>>, <<1, 3, 8, 14, 42>>, Perm(Zs(sites) \ {0})})}
Ops == {[op |-> "sort"], [op |-> "vac"], [op |-> "natoms", order |-> <<>>], [op |-> "centroid"], [op |-> "vacuum"]}
       \cup {[op |-> "pick", order |-> o] : o \in Orders(Len(hist))} \cup {[op |-> "natoms", order |-> o] : o \in Orders(Len(hist))}
       \cup (IF Mode = "all" THEN {[op |-> "index", f |-> <<1, 3, -2>>], [op |-> "index", f |-> <<1, 1, 0>>]}
             ELSE {[op |-> "index", f |-> LET x == sites[R(1..Len(sites))].f IN <<x[1] + K * R(-1..1), x[2] + K * R(-2..2), x[3] + R(0..1)>>]})
Edit == /\ phase = "edit" /\ Len(hist) < Depth
        /\ \E o \in (IF Mode = "all" THEN Ops ELSE {R(Ops)}) :
             /\ Ok(sites, o) /\ sites' = After(sites, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED <<phase, start, magmom, K, cell>>
Idle == Mode = "random" /\ Len(hist) < Depth /\ UNCHANGED vars
Next == AddAll \/ AddRnd \/ PickCell \/ Ready \/ Edit \/ Idle
(* no edit invents or moves an atom *)
Kept == phase = "edit" => {<<sites[i].z, sites[i].f, sites[i].m>> : i \in 1..Len(sites)} \subseteq {<<start[i].z, start[i].f, start[i].m>> : i \in 1..Len(start)}
PrintCase == Len(hist) = Depth => PrintT("VFCASE " \o ToJson([sites |-> start, hist |-> hist, magmom |-> magmom, K |-> K, cell |-> cell]))
=============================================================================
