------------------------------ MODULE AveragesMC ------------------------------
EXTENDS MovementMC
AV == INSTANCE Averages
Pow3(i) == <<R({1, 3}), R({1, 3}), R({1, 3})>>
RZ(i) == zs[R(1..Len(zs))]
AAsk == /\ phase = "ask" /\ Len(hist) < Depth
        /\ \E kd \in {R({"msd", "msdc", "pair", "bond", "angle", "angle"})} :
             hist' = Append(hist,
               CASE kd = "msd" -> [op |-> kd, q |-> R({1, 5, 10})]
                 [] kd = "msdc" -> [op |-> kd]
                 [] kd = "pair" -> [op |-> kd, i |-> R(1..Len(zs)), j |-> R(1..Len(zs))]
                 [] kd = "bond" -> [op |-> kd, z1 |-> RZ(1), z2 |-> R({RZ(2), RZ(3), 6}), rch |-> 2 * R(61..150) + 1, scale |-> Pow3(1)]
                 [] kd = "angle" -> [op |-> kd, k |-> R(1..Len(frames)), z1 |-> RZ(1), z2 |-> RZ(2), z3 |-> R({RZ(3), RZ(4)}), rch |-> 2 * R(61..130) + 1, scale |-> Pow3(1), std |-> R(0..180), eps |-> R({5, 20, 60, 90})])
        /\ UNCHANGED <<phase, opts, zs, frames>>
ANext == Retry \/ PickOpts \/ AddFrame \/ AAsk \/ Finish
(* sanity of the definitions: a displacement about the centroid is never larger, angles are unordered pairs and their cosines lie in -1..1 *)
Spread == phase = "done" => \A k \in 2..Len(frames) : LET a == AV!St(frames, k - 1)
                                                          b == AV!St(frames, k) IN AV!MsdC(a, b) >= 0 /\ AV!MsdC(a, b) <= Len(zs) * AV!Msd(a, b) /\ AV!MsdC(a, b) = AV!MsdC(b, a)
AngleOk == phase = "done" => \A j \in 1..Len(hist) : hist[j].op = "angle" =>
   LET g == AV!St(frames, hist[j].k)
       A == AV!Angles(g, hist[j])
       n(i) == Cardinality({x \in AV!Bonds(g, hist[j], hist[j].z1, hist[j].z2) : x[1] = i})
   IN /\ \A p \in A : p[1] # p[2] /\ (hist[j].z2 = hist[j].z3 => <<p[2], p[1]>> \notin A)
      /\ (hist[j].z2 = hist[j].z3 => 2 * Cardinality(A) = AV!SumTo([i \in 1..Len(zs) |-> n(i) * (n(i) - 1)], Len(zs)))
      /\ \A kk \in AV!KeyBag(A) : LET q == kk[3] \div kk[1] IN q * q <= (kk[2] \div kk[1]) + 2 * (IF q < 0 THEN -q ELSE q) + 2
=============================================================================
