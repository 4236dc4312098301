------------------------------ MODULE DataSetMC ------------------------------
EXTENDS DataSet, TLC, Json
CONSTANTS Mode, MaxFiles, MaxFrames, MaxPart
VARIABLES phase, files, cur, ps, els, where
vars == <<phase, files, cur, ps, els, where>>
R(S) == RandomElement(S)
Pick(S) == IF Mode = "random" THEN {R(S)} ELSE S
AlikeFile(f) == LET rows == {i \in 1..Len(f[1].lines) : f[1].lines[i].k = "row" /\ "z" \in DOMAIN f[1].lines[i] /\ f[1].lines[i].z # 0}
                IN \A i \in rows : f[1].lines[i].z \in {1, 8}
(* every number of a frame tells which frame it is from *)
F(o, z, tag) ==
  LET n == Len(z)
      v(i, s) == IF o.zero = 1 \/ (o.zero = 2 /\ tag % 2 = 1) \/ (o.zero = 3 /\ i = 1) THEN <<0, 0, 0>> ELSE IF o.zero = 4 THEN <<-100 * tag - i, -tag, -s - i>> ELSE <<100 * tag + i, -tag, s + i>>
  IN [e |-> <<-1000 * tag - 1, -1000 * tag, tag>>, it |-> tag,
      lines |-> <<[k |-> "count", n |-> n], Title("lattice")>>
        \o [r \in 1..3 |-> Row(0, [c \in 1..3 |-> IF r = c THEN 50000 + tag ELSE r - c] \o (IF o.stress THEN v(r, 7) ELSE <<>>))]
        \o <<Title("position")>> \o [i \in 1..n |-> Row(z[i], <<10 * tag, 1000 * i, 999999 - tag>>)]
        \o (IF o.force THEN <<Title("force")>> \o [i \in 1..n |-> Row(z[i], v(i, 11))] ELSE <<>>)
        \o (IF o.eatom THEN <<Title("energy")>> \o [i \in 1..n |-> Row(z[i], v(i, 13))] ELSE <<>>)
        \o (IF o.mag THEN <<Title("magnetic")>> \o [i \in 1..n |-> Row(z[i], <<10 * i - tag>>)] ELSE <<>>)]
(* formulas that continue one another with digits: H2O and H2O10, O2H and O2H12, and the same in other orders *)
H2O(n) == <<1, 1>> \o [i \in 1..n |-> 8]
O2H(n) == <<8, 8>> \o [i \in 1..n |-> 1]
Alike == {H2O(1), H2O(10), H2O(11), O2H(1), O2H(12), [i \in 1..10 |-> 1] \o <<8>>, <<1, 8>>}
Comps == IF Mode = "random" THEN {<<3, 3, 8>>, <<8, 3, 3>>, <<3, 8>>, <<14, 3>>, <<1, 8, 1>>, <<8, 1, 1>>, <<16, 14, 14, 16>>, <<6, 27>>, <<27, 6>>}
         ELSE IF Mode = "files" THEN {<<8, 3>>, <<3, 8>>, <<8, 8, 1>>, H2O(1), H2O(10)} ELSE {<<8, 3, 8>>}
Opts == IF Mode = "random" THEN [stress : {R(BOOLEAN)}, force : {R(BOOLEAN)}, eatom : {R(BOOLEAN)}, mag : {R(BOOLEAN)}, zero : {0}]
        ELSE IF Mode = "files" THEN [stress : BOOLEAN, force : {TRUE}, eatom : {FALSE}, mag : BOOLEAN, zero : {0}] ELSE [stress : BOOLEAN, force : {TRUE}, eatom : BOOLEAN, mag : BOOLEAN, zero : {0}]
Turn(c, t) == [i \in 1..Len(c) |-> c[1 + ((i + t - 1) % Len(c))]]
Init == phase = "files" /\ files = <<>> /\ cur = <<>> /\ ps = 0 /\ els = <<>> /\ where = <<>>
NewFile == /\ phase = "files" /\ Len(files) < MaxFiles
           /\ \E c \in (IF Mode = "random" THEN {IF files # <<>> /\ R(1..3) = 1 THEN ReadZ(files[R(1..Len(files))][1].lines) ELSE IF R(1..4) = 1 \/ (files # <<>> /\ AlikeFile(files[1]) /\ R(1..6) # 1) THEN R(Alike) ELSE R(Comps)} ELSE Comps), o \in (IF Mode = "random" THEN {[stress |-> R(BOOLEAN), force |-> R(BOOLEAN), eatom |-> R(BOOLEAN), mag |-> R(BOOLEAN), zero |-> R(0..9)]} ELSE Opts),
                 n \in (IF Mode = "files" THEN {2} ELSE Pick(1..MaxFrames)), w \in Pick(IF Mode = "parts" THEN {0} ELSE {0, 1, 2}) :
                /\ \E m \in {IF Mode = "random" /\ R(1..3) = 1 THEN R({1, 2}) ELSE 1000}, t \in {IF Mode = "random" THEN R({0, 0, 1}) ELSE 0}, b \in {IF Mode = "random" /\ R(1..5) = 1 THEN 1 ELSE Len(files) + 1} :     (* some frames, and some files, repeat others; the atoms of some files change their order *)
                     files' = Append(files, [k \in 1..n |-> F(o, Turn(c, t * k), 50 * b + (k % m))])
                /\ where' = Append(where, w)
           /\ UNCHANGED <<phase, cur, ps, els>>
ElsFor(i) == IF Len(files) = 1 THEN {<<>>, Own(files[1]), <<92>> \o Own(files[1]), [i2 \in 1..Len(Own(files[1])) |-> Own(files[1])[Len(Own(files[1])) + 1 - i2]]} ELSE {<<>>}
Close == /\ phase = "files" /\ (IF Mode = "random" THEN files # <<>> /\ R(1..MaxFiles) <= Len(files) ELSE Len(files) = MaxFiles) /\ phase' = "done"
         /\ \E p \in Pick(0..MaxPart) : ps' = p
         /\ \E e \in (IF Mode = "files" THEN {<<>>} ELSE Pick(ElsFor(1))) : els' = e
         /\ UNCHANGED <<files, cur, where>>
Next == NewFile \/ Close
Covered == phase = "done" => \A f \in 1..Len(files) : PartsOk(Len(files[f]), ps)
Partition == phase = "done" => (UNION Groups(files) = 1..Len(files) /\ \A g, h \in Groups(files) : g = h \/ g \cap h = {})
Formed == phase = "done" => \A f \in 1..Len(files) : Homogeneous(files[f])
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([files |-> files, ps |-> ps, els |-> els, where |-> where]))
=============================================================================
