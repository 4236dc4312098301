------------------------------ MODULE ProjTrace ------------------------------
EXTENDS VFTrace, Proj
MInit(t) == t.init
MStep(s, e) == s
Fail(b, name) == IF b THEN {} ELSE {name}
Rows(t) == 1..Len(t.rows)
Set(q) == {q[i] : i \in 1..Len(q)}
(* a recorded frame: [head |-> rows of the leading columns, names |-> the other columns, w |-> rows of their values] *)
ElFrame(t, rws, f) ==
  /\ Len(f.names) = Cardinality(Els(t)) /\ Set(f.names) = Els(t) /\ Len(f.w) = Len(rws)
  /\ \A i \in 1..Len(rws) : \A j \in 1..Len(f.names) : f.w[i][j] = SumOver(rws[i].w, Of(t, f.names[j]))
HeadOf(rws, f, c) == f.head = [i \in 1..Len(rws) |-> [j \in 1..Len(c) |-> rws[i].x[c[j]]]]
AllFrame(t, rws, f) == /\ f.cols = t.cols /\ f.w = [i \in 1..Len(rws) |-> rws[i].w]
OneFrame(t, rws, f, c) == /\ f.cols = <<t.cols[c]>> /\ f.w = [i \in 1..Len(rws) |-> <<rws[i].w[c]>>]
Per(t, e, ok(_, _)) == /\ Len(e.frames) = t.nb /\ \A b \in 1..t.nb : ok(BandRows(t, t.nb, b), e.frames[b])
MFail(s, e) ==
  LET t == s.tabs[e.tab]
      bands == s.kind = "fat"
  IN
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  CASE e.op \in {"open", "close"} -> {}
    [] e.op = "tdos" -> Fail(HeadOf(t.rows, e.frames[1], <<1, 2>>) /\ e.frames[1].w = [i \in Rows(t) |-> <<>>], "total density at every energy")
    [] e.op = "orbitals" -> Fail(HeadOf(t.rows, e.frames[1], <<1>>) /\ AllFrame(t, t.rows, e.frames[1]), "every orbital's density at every energy")
    [] e.op = "elements" /\ ~ bands -> Fail(HeadOf(t.rows, e.frames[1], <<1>>) /\ ElFrame(t, t.rows, e.frames[1]), "an element's density is the sum over its own orbitals")
    [] e.op = "shape" -> Fail(e.nb = t.nb /\ e.nk = NPer(t, t.nb) /\ Len(e.els) = Cardinality(Els(t)) /\ Set(e.els) = Els(t), "number of bands and k-points, the elements")
    [] e.op = "total" -> Fail(Per(t, e, LAMBDA rws, f : HeadOf(rws, f, <<1, 2, 3>>) /\ AllFrame(t, rws, f)), "every band with all its weights")
    [] e.op = "elements" -> Fail(Per(t, e, LAMBDA rws, f : HeadOf(rws, f, <<1, 2, 3>>) /\ ElFrame(t, rws, f)), "an element's weight is the sum over its own orbitals, band by band")
    [] e.op = "orbital" -> Fail(Per(t, e, LAMBDA rws, f : HeadOf(rws, f, <<1, 2, 3>>) /\ OneFrame(t, rws, f, e.col)), "the weight of the orbital asked for, band by band")
=============================================================================
