------------------------------ MODULE NbListGen ------------------------------
(* Random behaviours of the client (tlc -simulate): larger, skewed cells, up to MaxAtoms atoms. *)
EXTENDS NbList, TLC, Json
CONSTANTS MinAtoms, MaxAtoms, MaxImages, Dyadic
VARIABLES phase, qy, K, M, far    \* far: how many cells away from the home cell sites may lie

R(S) == RandomElement(S)
Dense == MaxImages >= 2000      \* tiny cells with hundreds of neighbours
RandCell(kind, perm) ==
  LET e == << <<R(4..12), R(-3..3), R(-3..3)>>, <<R(-3..3), R(4..12), R(-3..3)>>, <<R(-3..3), R(-3..3), R(4..14)>> >>
      o == << <<R(3..12), 0, 0>>, <<0, R(3..12), 0>>, <<0, 0, R(3..16)>> >>
      h == << <<R(2..5), 0, 0>>, <<-2, R(2..5), 0>>, <<0, R(-1..1), R(5..12)>> >>
      d == << <<R(2..3), 0, 0>>, <<R(-1..1), R(2..3), 0>>, <<0, R(-1..1), R(3..5)>> >>
  IN  IF Dense THEN d ELSE IF kind = 1 THEN o ELSE IF kind = 2 THEN h ELSE e
Permute(c, p) == << c[p[1]], c[p[2]], c[p[3]] >>
Turn(c, s) == << VMul(s[1], c[1]), VMul(s[2], c[2]), VMul(s[3], c[3]) >>
Sign(i) == IF R(1..4) = 1 THEN -1 ELSE 1

Init == /\ far = 0 /\ phase = "cell" /\ K = 1 /\ M = (IF Dyadic THEN 2 ELSE 3)
        /\ qy = [cell |-> <<>>, pbc |-> <<>>, pos |-> <<>>, frac |-> <<>>, z |-> <<>>, rch |-> 0, umax |-> 0, sort |-> FALSE, cart |-> FALSE]
PickCell == /\ phase = "cell"
            /\ \E k \in {R(IF Dyadic THEN (IF MinAtoms > 8 THEN {4} ELSE {2, 4}) ELSE {3, 4, 5})} :
               \E c \in {RandCell(R(1..5), 0)} :
               \E p \in {R({<<1,2,3>>, <<1,2,3>>, <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>})} :
                 /\ Abs(Det(c)) >= (IF Dense THEN 12 ELSE 20)
                 /\ qy' = [qy EXCEPT !.cell = MScale(k, Turn(Permute(c, p), <<Sign(1), Sign(2), Sign(3)>>)), !.pbc = IF Dense THEN <<TRUE, TRUE, TRUE>> ELSE <<R(1..4) # 1, R(1..4) # 1, R(1..4) # 1>>]
                 /\ K' = k
            /\ phase' = "atoms" /\ far' = R({0, 0, 0, 1, 2}) /\ UNCHANGED M
AddAtom == /\ phase = "atoms"
           /\ \E f \in {<<R(0..(K-1)), R(0..(K-1)), R(0..(K-1))>>} :
              \E g \in {<<f[1] + K * R((-far)..far), f[2] + K * R((-far)..far), f[3] + K * R((-far)..far)>>} :
                LET v == Comb(g, qy.cell)
                IN  /\ f \notin {<<h[1] % K, h[2] % K, h[3] % K>> : h \in SeqSet(qy.frac)}
                    /\ qy' = [qy EXCEPT !.frac = Append(@, g), !.pos = Append(@, <<v[1] \div K, v[2] \div K, v[3] \div K>>),
                                      !.z = Append(@, R({1, 3, 8, 42, R(1..118)}))]
           /\ phase' = (IF Len(qy.frac) + 1 >= MinAtoms /\ R(1..MaxAtoms) <= Len(qy.frac) + 1 THEN "cut" ELSE "atoms")
           /\ UNCHANGED <<K, M, far>>
Ask == /\ phase = "cut"
       /\ \E r \in {IF Dense THEN 2 * R((11*K)..(14*K)) + 1 ELSE IF Dyadic /\ R(1..2) = 1 THEN 2 * K * R(3..14) ELSE 2 * R((3*K)..(13*K)) + 1} :
          LET rr == ReachOf(qy.cell, qy.pos, qy.pbc, (r + 1) \div 2)
          IN  /\ (2*rr[1]+1) * (2*rr[2]+1) * (2*rr[3]+1) <= MaxImages
              /\ qy' = [qy EXCEPT !.rch = r, !.sort = R(BOOLEAN), !.cart = R(BOOLEAN)]
       /\ phase' = "asked" /\ UNCHANGED <<K, M, far>>
Retry == phase \in {"cell", "atoms", "cut"} /\ UNCHANGED <<phase, qy, K, M, far>>
Next == PickCell \/ AddAtom \/ Ask \/ Retry
PrintCase == phase = "asked" => PrintT("VFCASE " \o ToJson([qy |-> qy, K |-> K, M |-> M]))
=============================================================================
