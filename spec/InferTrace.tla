------------------------------ MODULE InferTrace ------------------------------
(* State: per file, the checkpoint it was written from last.  Every read gives, name by name, the rows and columns of the array and how it  *)
(* starts: entry (r, c) of array a of checkpoint k was trained to start[k][a] + cols * r + c.                                                *)
EXTENDS VFTrace, Infer
MInit(x) == IF x.init.kind = "ckpt" THEN [ck |-> x.init.ck, files |-> [f \in 1..x.init.files |-> 0]] ELSE [ck |-> <<>>, files |-> <<>>]
MStep(s, e) == IF e.op = "save" THEN [s EXCEPT !.files[e.f] = e.k] ELSE s
SetOf(y) == {y[i] : i \in 1..Len(y)}
Net(g) == [g EXCEPT !.res = SetOf(g.res)]
Reads(c, got) ==
   /\ {[name |-> got.arr[i].name, rows |-> got.arr[i].rows, cols |-> got.arr[i].cols] : i \in 1..Len(got.arr)} = Held([e |-> Net(c.e), f |-> Net(c.f)])
   /\ \A i \in 1..Len(got.arr) : got.arr[i].counted /\ got.arr[i].start = c.start[got.arr[i].name]
   /\ got.m1 = M1(c) /\ got.m2 = M2(c) /\ got.ew = c.e.w /\ got.fw = c.f.w /\ got.other = 0
FailSave(s, e) == IF e.err # "" THEN {"extraction succeeds"} ELSE
   LET n == MStep(s, e) IN IF \A f \in DOMAIN n.files : n.files[f] = 0 \/ Reads(n.ck[n.files[f]], e.read[f]) THEN {} ELSE {"a file holds the parameters, sizes and M1, M2 of the checkpoint last extracted into it"}
FailReply(e) == IF e.err # "" THEN {} ELSE IF e.gave = e.got THEN {} ELSE {"energies, forces and virial are the model's, for the one structure"}
(* what the driver found beyond fixed point: the worst difference from the row of the neighbour a slot names, in 1e-12 *)
FailFine(e) == IF "fine" \in DOMAIN e /\ e.fine > 1000 THEN {"double precision rows and derivatives are exact to nine digits"} ELSE {}
MFail(s, e) == FailFine(e) \cup CASE e.op = "save" -> FailSave(s, e)
                 [] e.op = "infer" -> FailModel(e.qy, e) \cup FailReply(e)
                 [] e.op = "crystal" -> FailCrystal(e.qy, e)
                 [] e.op = "refuse" -> IF e.err # "" THEN {} ELSE {"a device that is not there is refused"}
                 [] e.op = "keys" -> IF e.err = "" /\ SetOf(e.keys) = {ToString(a) \o "_" \o ToString(b) : a, b \in SetOf(e.z)} THEN {} ELSE {"one matrix per pair of elements"}
=============================================================================
