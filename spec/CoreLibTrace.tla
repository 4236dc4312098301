----------------------------- MODULE CoreLibTrace -----------------------------
(* After every step all registers, arrays and the table are read; bytes: how much more memory is held than before the table was made, once freed. *)
EXTENDS VFTrace, CoreLib
MInit(x) == New(x.init.nv, x.init.na)
MStep(s, e) == Step(s, e)
Fail(b, name) == IF b THEN {} ELSE {name}
RECURSIVE Flat(_, _, _)
(* row-major position of an index *)
Flat(dim, at0, i) == IF i = 0 THEN 0 ELSE Flat(dim, at0, i - 1) * dim[i] + at0[i] - 1
Size(dim) == IF dim = <<>> THEN 0 ELSE Prod(dim)
TableOk(t, q) == Len(q) = Size(t.dim) /\ LET w == [m \in {Flat(t.dim, y[1], Len(t.dim)) + 1 : y \in t.set} |-> (CHOOSE y \in t.set : Flat(t.dim, y[1], Len(t.dim)) + 1 = m)[2]]
                 IN \A m \in 1..Len(q) : IF m \in DOMAIN w THEN q[m] = w[m] ELSE t.zero => q[m] = 0
MFail(s, e) ==
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  IF e.op = "end" THEN {} ELSE                                    \* everything is destroyed
  LET n == MStep(s, e) IN
     Fail(e.v = n.v, "vectors have the values arithmetic gives them")
  \cup Fail(Len(e.a) = Len(n.a) /\ \A i \in 1..Len(n.a) : Len(e.a[i]) = Len(n.a[i]) /\ \A k \in 1..Len(n.a[i]) : n.a[i][k] = 0 \/ e.a[i][k] = n.a[i][k], "arrays keep their size and what was written to them")
  \cup Fail(e.aligned, "arrays start on a 16-byte boundary")
  \cup Fail(TableOk(n.t, e.t), "tables hold zero or what was written")
  \cup (CASE e.op = "dot" -> Fail(e.out = <<VDot(s.v[e.i], s.v[e.j]), VDot(s.v[e.i], s.v[e.j])>>, "scalar products")
          [] e.op = "same" -> Fail(e.out = IF s.v[e.i] = s.v[e.j] THEN <<1, 0>> ELSE <<0, 1>>, "equality and inequality")
          [] e.op = "plain" -> Fail(e.out = VCross(s.v[e.i], s.v[e.j]) \o <<VDot(s.v[e.i], s.v[e.i])>>, "vector product and norm of plain arrays")
                               \cup Fail(e.unit = IF s.v[e.i] = <<0, 0, 0>> THEN <<>> ELSE <<s.v[e.i], 1>>, "a normalised vector points the same way and has length one")
          [] e.op = "power" -> Fail(e.out = Power(s.v[e.i], e.n), "outer powers")
          [] e.op = "text" -> Fail(e.txt = "[" \o ToString(s.v[e.i][1]) \o ", " \o ToString(s.v[e.i][2]) \o ", " \o ToString(s.v[e.i][3]) \o "]", "a vector is written as [x, y, z]")
          [] e.op = "free" -> Fail(e.bytes = 0, "freeing a table gives all of it back")
          [] OTHER -> {})
=============================================================================
