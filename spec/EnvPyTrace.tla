------------------------------ MODULE EnvPyTrace ------------------------------
(* The Python environment matrices, the matrices of several species, and their normalisation.  Every call is a function of its  *)
(* arguments; a normalizer's state is the averages and deviations it was given or computed.                                     *)
EXTENDS VFTrace, EnvMat, FiniteSetsExt
SumF(S, f(_)) == MapThenSumSet(f, S)
MInit(x) == 0
MStep(s, e) == s + 1
Broad(qy) == [qy EXCEPT !.rch = qy.wide]
(* op "pair": one centre species, one neighbour species; an, v, d2 unpadded, r, d, ex padded to e.width *)
FailPairRow(vs, c, e, i) ==
  LET n == Cardinality(vs)
      w == Len(e.v[i])
  IN IF w < n THEN {"the table has room for its neighbours"} ELSE
     (IF {e.v[i][s] : s \in 1..n} = vs /\ (\A s \in 1..n : e.an[i][s] = e.no[1] /\ e.d2[i][s] = Norm2(e.v[i][s])) THEN {} ELSE {"a row lists exactly its neighbours: species, distance and offset"})
     \cup (IF \A s \in (n + 1)..w : e.v[i][s] = Zero3 /\ e.an[i][s] = 0 /\ e.d2[i][s] = 0 THEN {} ELSE {"the unused rest of a row is zero"})
     \cup (IF \A s \in 1..(n - 1) : e.d2[i][s] <= e.d2[i][s + 1] THEN {} ELSE {"neighbours run from near to far"})
     \cup (IF \A s \in 1..e.width : IF s <= n THEN e.v[i][s] = Zero3 \/ ValueOk(e.r[i][s], e.v[i][s], c) ELSE ZeroV(e.r[i][s]) THEN {} ELSE {"each slot holds the values of its own neighbour, unused slots zero"})
     \cup (IF \A s \in 1..e.width : IF s <= n THEN e.v[i][s] = Zero3 \/ SlopeOk(e.d[i][s], e.v[i][s], c, -1) ELSE ZeroD(e.d[i][s]) THEN {} ELSE {"each slot holds the derivatives of its own neighbour, unused slots zero"})
     \cup (IF \A s \in 1..e.width : e.x[i][s] = IF s <= w THEN e.v[i][s] ELSE Zero3 THEN {} ELSE {"the widened offset table is the offset table with zeros after it"})
FailPair(qy, e) ==
  LET ex == NL!Expected(Broad(qy))
      c == [rsh |-> qy.rsh, rch |-> qy.rch]
      rows == OfSpecies(qy.z, e.co)
      shape(a) == Len(a) = Len(rows) /\ \A i \in 1..Len(rows) : Len(a[i]) = e.width
      nat(a) == Len(a) = Len(rows) /\ \A i \in 1..Len(rows) : Len(a[i]) = SetMax({0} \cup {Cardinality(Others(ex, qy, rows[j], e.no[1])) : j \in 1..Len(rows)})
  IN IF e.err # "" THEN {"the environment matrix is computed"} ELSE
     IF ~(nat(e.v) /\ nat(e.an) /\ nat(e.d2)) THEN {"one row per centre, as wide as the fullest row"} ELSE
     IF ~(shape(e.r) /\ shape(e.d) /\ shape(e.x)) THEN {"padded matrices have the requested width"} ELSE
     UNION {FailPairRow(Others(ex, qy, rows[i], e.no[1]), c, e, i) : i \in 1..Len(rows)}
(* op "stats": rows of four numbers k/64; out: mean of the first column, the deviations squared, all times what makes them integers *)
Acc(a, i, f(_)) == SumSeq([k \in 1..Len(a) |-> f(a[k])])
FailStats(e) ==
  LET a == e.a
      n == Len(a)
      s1 == Acc(a, 1, LAMBDA x : x[1])
      q1 == Acc(a, 1, LAMBDA x : x[1] * x[1])
      s3 == Acc(a, 1, LAMBDA x : x[2] + x[3] + x[4])
      q3 == Acc(a, 1, LAMBDA x : x[2] * x[2] + x[3] * x[3] + x[4] * x[4])
      v1 == n * q1 - s1 * s1                   \* 4096 n^2 times the variance
      v3 == 3 * n * q3 - s3 * s3               \* 9 * 4096 n^2 times the variance
      dev(v, k) == IF v < 100000 /\ v * 625 < k * 256 * n * n THEN <<1, 0>> ELSE <<0, v>>     \* below 0.01: 0.01
  IN IF e.err # "" THEN {"statistics are computed"} ELSE
     (IF e.avg = <<s1, 0, 0, 0>> THEN {} ELSE {"the average is the mean of the radial column and zero for the others"})
     \cup (IF e.std = <<dev(v1, 1), dev(v3, 9), dev(v3, 9), dev(v3, 9)>> THEN {} ELSE {"the deviation is that of the radial column, and of the three others together, never below 0.01"})
(* op "norm": x = y * std + avg, and the derivatives likewise without the average; back is what the driver undid *)
FailNorm(e) == IF e.err # "" THEN {"matrices are normalized"} ELSE
   (IF e.back = e.a THEN {} ELSE {"normalizing subtracts the average and divides by the deviation, column by column"})
   \cup (IF e.dback = e.da THEN {} ELSE {"derivatives are divided by the deviation of their column"})
(* op "file": what a normalizer holds after being written and read back *)
FailFile(e) == IF e.err # "" THEN {"a normalizer can be written and read back"} ELSE IF e.same THEN {} ELSE {"a normalizer read back holds what was written"}
(* op "sys": averages and deviations (squared) of the matrices of the chosen frames, fixed point *)
FailSys(e) ==
  LET per(z) == LET frames == [f \in 1..Len(e.pick) |-> Broad(e.frames[e.pick[f] + 1])]
                    sums == [f \in 1..Len(frames) |->
                       LET qy == frames[f]
                           ex == NL!Expected(qy)
                           c == [rsh |-> qy.rsh, rch |-> qy.rch]
                           rows == OfSpecies(qy.z, <<z>>)
                           vs == UNION {{<<i, k, v>> : v \in Others(ex, qy, rows[i], e.no[k])} : i \in 1..Len(rows), k \in 1..Len(e.no)}
                           val == [y \in vs |-> Value(y[3], c)]
                       IN <<SumF(vs, LAMBDA y : val[y][1]), SumF(vs, LAMBDA y : Mul(val[y][1], val[y][1])),
                            SumF(vs, LAMBDA y : val[y][2] + val[y][3] + val[y][4]),
                            SumF(vs, LAMBDA y : Mul(val[y][2], val[y][2]) + Mul(val[y][3], val[y][3]) + Mul(val[y][4], val[y][4])), Len(rows) * SumSeq(e.sel)>>]
                    tot(j) == Acc(sums, 1, LAMBDA y : y[j])
                    n == tot(5)
                    m == tot(1) \div n
                    m3 == tot(3) \div (3 * n)
                IN [avg |-> m, v1 |-> tot(2) \div n - Mul(m, m), v3 |-> tot(4) \div (3 * n) - Mul(m3, m3)]
      ok(i) == LET w == per(e.co[i])
                   fl(v) == IF v < 4 THEN 3 ELSE v
               IN /\ Near(e.avg[i][1], w.avg, 16) /\ e.avg[i][2] = 0 /\ e.avg[i][3] = 0 /\ e.avg[i][4] = 0
                  /\ Near(e.std[i][1], fl(w.v1), 40) /\ \A k \in 2..4 : Near(e.std[i][k], fl(w.v3), 40)
  IN IF e.err # "" THEN {"statistics of a collection are computed"} ELSE
     (IF Len(e.avg) = Len(e.co) /\ Len(e.std) = Len(e.co) /\ \A i \in 1..Len(e.co) : ok(i) THEN {} ELSE {"statistics are those of the chosen frames, one row per centre species"})
     \cup (IF e.agree THEN {} ELSE {"statistics are those of the frames' own matrices"})
(* what the driver found beyond fixed point: the worst difference from the row of the neighbour a slot names, in 1e-12 *)
FailFine(e) == IF "fine" \in DOMAIN e /\ e.fine > 1000 THEN {"double precision rows and derivatives are exact to nine digits"} ELSE {}
MFail(s, e) == FailFine(e) \cup CASE e.op = "pair" -> FailPair(e.qy, e)
                 [] e.op = "crystal" -> FailCrystal(e.qy, e)
                 [] e.op = "stats" -> FailStats(e)
                 [] e.op = "norm" -> FailNorm(e)
                 [] e.op = "file" -> FailFile(e)
                 [] e.op = "sys" -> FailSys(e)
=============================================================================
