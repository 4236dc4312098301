---------------------------- MODULE MtpTemplateMC ----------------------------
(* Contents drawn at random, one damage, and a reader that walks through the fields; checked: it ends with the contents exactly     *)
(* when nothing it had to read is damaged.                                                                                        *)
EXTENDS MtpTemplate, TLC, Json
VARIABLES phase, c, d, head, tail, at, got
vars == <<phase, c, d, head, tail, at, got>>
R(S) == RandomElement(S)
Num(x) == R({0, 1, 2, 3, 5, 9, 10, 17, 99, 100, 1234, 65536, 180069, 2147483647} \cup 0..9)
Quads(n) == [i \in 1..n |-> <<Num(i), Num(i), Num(i), Num(i)>>]
Init == phase = "fill" /\ c = <<>> /\ d = None /\ head = <<>> /\ tail = 0 /\ at = 0 /\ got = ""
Fill == /\ phase = "fill" /\ phase' = "damage"
        /\ \E nb \in {R({1, 1, 2, 3, 5, 11})}, nt \in {R({0, 0, 1, 2, 5, 14, 80})}, ns \in {R({1, 1, 2, 5, 9, 60})} :
             \E b \in {Quads(nb)}, t \in {Quads(nt)}, m \in {[i \in 1..ns |-> Num(i)]} :
               c' = [nm |-> R({1, 8, 18, 100, 65536}), basic |-> b, times |-> t, map |-> m]
        /\ \E h \in {[i \in 1..10 |-> R(0..7)]} : head' = h
        /\ tail' = R(0..3) /\ UNCHANGED <<d, at, got>>
Damage == /\ phase = "damage" /\ phase' = "read" /\ \E x \in {R(IF R(1..3) = 1 THEN {None} ELSE Damages(c))} : d' = x
          /\ UNCHANGED <<c, head, tail, at, got>>
Stops(f) == \/ d.kind \in {"name", "cut", "short", "absent"} /\ d.field = f
            \/ d.kind = "cutin" /\ d.field = f /\ ~(f \in Lists /\ Size(c, f) = 0)
            \/ d.kind = "cutin" /\ d.field = f - 1 /\ f - 1 \in Lists /\ Size(c, f - 1) = 0
Read == /\ phase = "read" /\ at' = at + 1
        /\ IF Stops(at + 1) THEN phase' = "done" /\ got' = "error" ELSE IF at + 1 = 7 THEN phase' = "done" /\ got' = "contents" ELSE UNCHANGED <<phase, got>>
        /\ UNCHANGED <<c, d, head, tail>>
Next == Fill \/ Damage \/ Read
Exact == phase = "done" => (got = "contents") = (Notices(c, d) = 0) /\ (got = "error" => at = Notices(c, d))
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([kind |-> "file", c |-> c, d |-> d, head |-> head, tail |-> tail]))
=============================================================================
