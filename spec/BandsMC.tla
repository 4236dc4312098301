------------------------------ MODULE BandsMC ------------------------------
EXTENDS Bands, TLC, Json, SequencesExt
CONSTANTS Mode, MaxK, MaxB, Depth
VARIABLES phase, r, hist
R(S) == RandomElement(S)
Lv == -12340
Levels(ns) == IF ns = 1 THEN {-24, -20, 25, 31} ELSE {-20, 25, 31}
Pairs(ns) == {<<Lv + a, Lv + b>> : a, b \in Levels(ns)}
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Up(S) == {p \in S : p[1] <= p[2]}
AllFiles == {[eig |-> <<e>>, raw |-> -123400 + d] : e \in [1..3 -> Up(Pairs(1))], d \in {-49}}
            \cup {[eig |-> <<e, g>>, raw |-> -123400 + 49] : e, g \in [1..2 -> Up(Pairs(2))]}
RndK(i, nb, nv, ef, metal) ==
   Sorted([b \in 1..nb |-> IF b <= nv + (IF metal /\ R(1..4) = 1 THEN R({-1, 1}) ELSE 0) THEN ef - R({20 + R(0..12), 25, R(2..900), R(2..700000)})
                                                 ELSE ef + R({20 + R(0..12), 25, R(2..900), R(2..700000)})])
RndFile(i) ==
  LET nb == R(1..MaxB)
      nk == R(1..MaxK)
      nv == R(0..nb)
      mt == R(1..5) = 1
      raw == R(-999999..999999)
      ef == 10 * ((raw + 50) \div 100)
      ns == R(1..2)
      nw == IF R(1..2) = 1 THEN nv ELSE R(0..nb)
  IN [eig |-> [s \in 1..ns |-> [k \in 1..nk |-> RndK(k, nb, IF s = 1 THEN nv ELSE nw, ef, mt)]], raw |-> raw]
Init == phase = "pick" /\ r = <<>> /\ hist = <<>>
Pick == /\ phase = "pick" /\ phase' = "ask" /\ hist' = <<>>
        /\ \E f \in (IF Mode = "all" THEN AllFiles ELSE {RndFile(1)}) : Clear(f) /\ r' = f
Retry == Mode = "random" /\ phase = "pick" /\ UNCHANGED <<phase, r, hist>>
Kinds == {"counts", "eig", "fermi", "cbm", "vbm"} \cup (IF Metal(r) THEN {} ELSE {"gap", "type"})
Ask == /\ phase = "ask" /\ UNCHANGED <<phase, r>>
       /\ IF Mode = "all" THEN hist = <<>> /\ hist' = (IF Metal(r) THEN <<"cbm", "vbm">> ELSE <<"type", "cbm", "vbm", "gap">>)
          ELSE Len(hist) < Depth /\ \E q \in {R(Kinds)} : hist' = Append(hist, q)
Finish == phase = "ask" /\ Len(hist) >= (IF Mode = "all" THEN 1 ELSE Depth) /\ phase' = "done" /\ UNCHANGED <<r, hist>>
Next == Pick \/ Retry \/ Ask \/ Finish
Theorems == phase # "pick" => Sane(r)
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([init |-> r, hist |-> hist]))
=============================================================================
