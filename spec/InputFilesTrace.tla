---------------------------- MODULE InputFilesTrace ----------------------------
(* After every write all files are read again: each must hold what was written to it last. *)
EXTENDS VFTrace, InputFiles
MInit(t) == [f \in 1..t.init |-> <<>>]
MStep(s, e) == [s EXCEPT ![e.f] = <<e.what>>]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Reads(o, c) == CASE o.kind = "vext" -> SetOf(c.set) = Contents(o).set /\ SetOf(c.flags) = Contents(o).flags /\ Len(c.set) + Len(c.flags) = 4 /\ c.other = 0
                 [] o.kind = "dos" -> c.rows = Contents(o).rows
                 [] o.kind = "job" -> c.shell /\ SetOf(c.set) = Contents(o).set /\ Len(c.set) = 7
MFail(s, e) == IF e.err # "" THEN {"writing succeeds"} ELSE
  LET n == MStep(s, e) IN
  IF \A f \in DOMAIN n : n[f] = <<>> \/ Reads(n[f][1], e.read[f]) THEN {} ELSE {"a file reads as what was written to it last"}
=============================================================================
