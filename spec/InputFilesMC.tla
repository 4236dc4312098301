----------------------------- MODULE InputFilesMC -----------------------------
(* Clients write and rewrite input files under a few names. *)
EXTENDS InputFiles, Json
CONSTANTS Depth, Files
VARIABLES hist, phase
R(S) == RandomElement(S)
RN(i) == Dec(R({0, 1, R(-99999..99999), R(-999..999), R(-9..9), 900000000 + R(0..99999999)}), R({0, 0, 1, 3, 4, 7, 9}))
Vext(t) == [kind |-> "vext", center |-> [i \in 1..3 |-> RN(i)], type |-> t, add |-> R(BOOLEAN), detail |-> [i \in 1..NumDetail[t] |-> RN(i)]]
Dos(t) == [kind |-> "dos", atoms |-> R(0..1), method |-> R(0..1), smear |-> R({R(1..200000), R(1..99), 1000 * R(1..200)}), num |-> R(1..20000), grid |-> [i \in 1..3 |-> R(1..40)]]
Job(t) == [kind |-> "job", partition |-> R({"gpu", "cpu", "3080ti,new", "p-1"}), name |-> R({"scf", "my_job", "a.b", "x"}), nodes |-> R(1..99), tasks |-> R(1..64), threads |-> R(1..8), gpus |-> R(0..9), pertask |-> R(0..12)]
Init == hist = <<>> /\ phase = "go"
Write == phase = "go" /\ Len(hist) < Depth /\ \E o \in {CASE R(1..3) = 1 -> Vext(R(1..3)) [] OTHER -> IF R(1..2) = 1 THEN Dos(1) ELSE Job(1)}, f \in {R(1..Files)} : hist' = Append(hist, [op |-> "write", f |-> f, what |-> o]) /\ phase' = phase
Finish == phase = "go" /\ Len(hist) = Depth /\ phase' = "done" /\ UNCHANGED hist
Next == Write \/ Finish
(* two settings that read the same are the same; the last write decides *)
Faithful == \A i, j \in 1..Len(hist) : hist[i].what.kind = hist[j].what.kind /\ Contents(hist[i].what) = Contents(hist[j].what) => hist[i].what = hist[j].what
Legal == \A i \in 1..Len(hist) : hist[i].what.kind = "vext" => LegalVext(hist[i].what)
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([hist |-> hist]))
=============================================================================
