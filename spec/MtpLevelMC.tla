----------------------------- MODULE MtpLevelMC -----------------------------
(* The enumeration as a process: moments are added one after the other in their fixed order, then the tensors are contracted by    *)
(* one of two strategies.  Checked: the process reaches exactly the bags of each level, and a strategy can end with scalars only     *)
(* where the closed forms of MtpLevel say so.  Random lists of bags for the filter are drawn in simulation (GenNext).               *)
EXTENDS MtpLevel, TLC, Json
CONSTANT MaxL
VARIABLES phase, comb, lev, rest, how
vars == <<phase, comb, lev, rest, how>>
Init == phase = "add" /\ comb = <<>> /\ lev = 0 /\ rest = <<>> /\ how = ""
Add == /\ phase = "add" /\ \E p \in Pairs(MaxL - lev) : /\ IF comb = <<>> THEN TRUE ELSE Before(comb[Len(comb)], p)
                                                        /\ comb' = Append(comb, p) /\ lev' = lev + Lev(p)
       /\ UNCHANGED <<phase, rest, how>>
Drop0(r) == SelectSeq(r, LAMBDA x : x > 0)
Choose == /\ phase = "add" /\ Len(comb) > 1 /\ phase' = "contract" /\ how' \in {"largest", "pairs"}
          /\ rest' = SortSeq(Drop0(Ranks(comb)), LAMBDA x, y : x >= y) /\ UNCHANGED <<comb, lev>>
\* the first tensor takes up the indices of the next one; used up (rank 0) it takes no more
Absorb == /\ phase = "contract" /\ how = "largest" /\ Len(rest) > 1 /\ rest[1] >= rest[2]
          /\ rest' = <<rest[1] - rest[2]>> \o SubSeq(rest, 3, Len(rest)) /\ UNCHANGED <<phase, comb, lev, how>>
Cancel == /\ phase = "contract" /\ how = "pairs" /\ Len(rest) > 1 /\ rest[1] = rest[2]
          /\ rest' = SubSeq(rest, 3, Len(rest)) /\ UNCHANGED <<phase, comb, lev, how>>
Next == Add \/ Choose \/ Absorb \/ Cancel
LevelOk == lev = FoldFunction(+, 0, [i \in 1..Len(comb) |-> Lev(comb[i])])
OnlyBags == comb \in Schemes(lev)
\* a reached bag is its own canonical form, so the states of phase "add" are in bijection with the bags
CanonOk == Canon(comb) = comb
ScalarOk == phase = "contract" =>
   /\ (rest = <<>> \/ (how = "largest" /\ rest = <<0>>) => Scalar(comb))
   /\ (how = "largest" /\ Len(rest) = 1 /\ rest # <<0>> => ~ByLargest(Ranks(comb)))
   /\ (how = "largest" /\ Len(rest) > 1 /\ rest[1] < rest[2] => ~ByLargest(Ranks(comb)))
   /\ (how = "pairs" /\ Len(rest) > 0 /\ (Len(rest) = 1 \/ rest[1] # rest[2]) => ~ByPairs(Ranks(comb)))
\* ---- random lists of bags
Bag(n) == [i \in 1..n |-> <<RandomElement(0..3), RandomElement({0, 0, 1, 1, 2, 2, 3, 4, 5})>>]
Down(c) == SortSeq(c, LAMBDA x, y : x[2] >= y[2])
GenNext == /\ phase = "add" /\ IF Len(rest) < 12
             THEN \E n \in {RandomElement(0..6)} : \E b \in {Bag(n)} : rest' = Append(rest, Down(b)) /\ UNCHANGED <<phase, comb, lev, how>>
             ELSE phase' = "done" /\ UNCHANGED <<comb, lev, rest, how>>
GenPrint == phase = "done" => PrintT("VFCASE " \o ToJson([kind |-> "filter", list |-> rest]))
=============================================================================
