----------------------------- MODULE AveragesTrace -----------------------------
EXTENDS VFTrace, Averages
MInit(t) == t.init
MStep(s, e) == s
Fail(b, name) == IF b THEN {} ELSE {name}
AbsV(x) == IF x < 0 THEN -x ELSE x
Times(rows) == SumTo([j \in 1..Len(rows) |-> rows[j].n], Len(rows))
AngleFail(g, e) ==
  LET A == Angles(g, e)
      N == Cardinality(A)
      rows == e.rows
      inside(r) == AbsV(r.th - 1000 * e.std) < 1000 * e.eps
      clear(r) == AbsV(AbsV(r.th - 1000 * e.std) - 1000 * e.eps) > 2
      th == SumTo([j \in 1..Len(rows) |-> rows[j].n * (rows[j].th \div 10)], Len(rows))
      uu(r) == LET u == 1000 + 3 * r.co IN (u * u) \div 100
      qq == SumTo([j \in 1..Len(rows) |-> rows[j].n * uu(rows[j])], Len(rows))
  IN IF N = 0 THEN {} ELSE IF e.err # "" THEN {"angles are computed"} ELSE
     Fail({<<rows[j].s, rows[j].l, rows[j].dot, rows[j].n>> : j \in 1..Len(rows)} = KeyBag(A) /\ Times(rows) = N, "one row per angle between two different neighbours of a centre, with its shorter and longer bond")
     \cup Fail(LET some == {<<e.some[j].s, e.some[j].l, e.some[j].dot, e.some[j].n>> : j \in 1..Len(e.some)} IN
               \A j \in 1..Len(rows) : clear(rows[j]) => ((<<rows[j].s, rows[j].l, rows[j].dot, rows[j].n>> \in some) <=> inside(rows[j])), "the rows whose angle lies within the margin")
     \cup (IF Times(rows) # N THEN {} ELSE
     Fail(AbsV(e.mean * N - th) <= 2 * N + 2, "the mean angle")
     \cup Fail(24 * (10000 - e.order) - qq <= 130 * N + 30 /\ qq - 24 * (10000 - e.order) <= 130 * N + 30, "the tetrahedral order"))
MFail(fr, e) ==
  LET n == Count(fr[1].lines)
      T == Len(fr) - 1
  IN CASE e.op = "angle" -> AngleFail(St(fr, e.k), e)
       [] e.err # "" -> IF e.op = "bond" /\ \E k \in 1..Len(fr) : Bonds(St(fr, k), e, e.z1, e.z2) = {} THEN {} ELSE {e.op \o " is computed"}
       [] e.op = "msd" -> Fail(Len(e.reply) = T /\ \A k \in 1..T : e.reply[k] = Msd(St(fr, k), St(fr, k + 1)), "the mean squared displacement between consecutive frames")
                          \cup Fail(Len(e.di) = T /\ \A k \in 1..T : AbsV(e.di[k] - Msd(St(fr, k), St(fr, k + 1))) <= 1, "the diffraction intensity is exp(-q^2 msd / 3)")
       [] e.op = "msdc" -> Fail(Len(e.reply) = T /\ \A k \in 1..T : e.reply[k] = MsdC(St(fr, k), St(fr, k + 1)), "the mean squared displacement about the centroid")
       [] e.op = "pair" -> Fail(e.reply = [k \in 1..Len(fr) |-> C!Norm2(C!VSub(St(fr, k).pos[e.i], St(fr, k).pos[e.j]))], "the distance of the two atoms in every frame")
       [] e.op = "bond" -> Fail(Len(e.reply) = Len(fr) /\ \A k \in 1..Len(fr) : LET b == Bonds(St(fr, k), e, e.z1, e.z2)
                                                                                    c == Cardinality(b) IN c = 0 \/ AbsV(e.reply[k] * c - SumSet(b)) <= 2 * c + 1, "the mean length of the bonds in every frame")
=============================================================================
