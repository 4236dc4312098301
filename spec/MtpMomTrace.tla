----------------------------- MODULE MtpMomTrace -----------------------------
(* What the radial functions, tensor powers, moments and basis functions answered.  Each call is a function of its arguments: an    *)
(* object that was built for other distances before answers for the last one.  Numbers come scaled as MtpMom says, in whole units.  *)
EXTENDS VFTrace, MtpMom
MInit(x) == 0
MStep(s, e) == s + 1
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
Shut(e) == e.what = "mtp" /\ ~Inside(e.k, e.N)       \* outside [rs, rc) the polynomials of mtp answer zero, those of mtpr are not asked
FailRadial(e) ==
  LET t == IF Shut(e) THEN Zeros(e.size) ELSE TVals(e.size, e.k, e.N)
      d == IF Shut(e) THEN Zeros(e.size) ELSE TDers(e.size, e.k, e.N)
  IN (IF Near(e.t, t, 0) THEN {} ELSE {"the polynomials are Chebyshev's"})
     \cup (IF Near(e.tx, d, 0) /\ Near(e.tr, [n \in 1..e.size |-> 2 * d[n]], 0) THEN {} ELSE {"the polynomials' derivatives are exact"})
     \cup (IF Near(e.q, QVals(e.size, e.k, e.N), e.tol) THEN {} ELSE {"the radial functions are the switched polynomials"})
     \cup (IF Near(e.qr, QDers(e.size, e.k, e.N), 8 * e.tol) THEN {} ELSE {"the radial functions' derivatives are exact"})
     \cup (IF Near(e.s, <<IF Inside(e.k, e.N) THEN Sw(e.k, e.N) ELSE 0, IF Inside(e.k, e.N) THEN DSw(e.k, e.N) ELSE 0>>, 1) THEN {} ELSE {"the switch and its derivative"})
FailQ(e) == (IF Len(e.q) = Len(e.ks) /\ \A i \in 1..Len(e.ks) : Near(e.q[i], QVals(e.size, e.ks[i], e.N), e.tol) THEN {} ELSE {"the operator returns the radial functions of each offset"})
  \cup (IF Len(e.g) = Len(e.ks) /\ \A i \in 1..Len(e.ks) :
            LET d == QDers(e.size, e.ks[i], e.N)
                h == e.N \div 2
                s == Sum([n \in 1..e.size |-> e.go[i][n] * d[n] * Pow(h, e.size - n)])
            IN Near(e.g[i], [a \in 1..3 |-> s * e.v[i][a]], e.gtol) THEN {} ELSE {"the operator's gradient is exact"})
Flat(nu, f(_)) == [m \in 1..Pow(3, nu) |-> f(CHOOSE i \in Idx(nu) : Place(i) = m - 1)]
FailAng(e) == (IF Len(e.t) = Len(e.v) /\ \A j \in 1..Len(e.v) : e.t[j] = Flat(e.nu, LAMBDA i : Prod(e.v[j], i)) THEN {} ELSE {"the tensor power of each offset"})
  \cup (IF Len(e.g) = Len(e.v) /\ \A j \in 1..Len(e.v) : e.g[j] = [a \in 1..3 |->
          SumS(Idx(e.nu), LAMBDA i : e.go[j][Place(i) + 1] * Sum([p \in 1..e.nu |-> IF i[p] # a THEN 0 ELSE Prod([x \in 1..3 |-> e.v[j][x]], [m \in (1..e.nu) \ {p} |-> i[m]])]))]
        THEN {} ELSE {"the tensor power's gradient is exact"})
FailMom(e) == LET t == Moment(e.en, e.mu, e.nu) IN
  IF Near(e.m, Flat(e.nu, LAMBDA i : t[i]), e.tol) THEN {} ELSE {"a moment is the sum over the neighbours of radial function times tensor power"}
\* basis functions: N = 2, everything divided by 16 (exact), so that moments are scaled by 2 and their gradients by 32 r
Down(comb) == SortSeq(comb, LAMBDA x, y : x[2] >= y[2])
Rk(comb) == [m \in 1..Len(comb) |-> comb[m][2]]
Ten(en, p) == LET t == Moment(en, p[1], p[2]) IN [i \in DOMAIN t |-> t[i] \div 16]
DTen(en, p, j, a) == LET b == en.nb[j]
                         d == DF(en, p[1], j) \div 2
                         f == F(en, p[1], j) IN
   [i \in Idx(p[2]) |-> d * b.x[a] * Prod(b.x, i) + f * b.r * Sum([q \in 1..p[2] |-> IF i[q] # a THEN 0 ELSE Prod(b.x, [m \in (1..p[2]) \ {q} |-> i[m]])])]
FailBasis(e) == LET C == [m \in 1..Len(e.combs) |-> Down(e.combs[m])] IN
  (IF Len(e.b) = Len(C) /\ \A m \in 1..Len(C) : e.b[m] = Contract([n \in 1..Len(C[m]) |-> Ten(e.en, C[m][n])], Rk(C[m])) THEN {}
     ELSE {"a basis function is the contraction of its moments"})
  \cup (IF e.g = <<>> THEN {} ELSE IF \A m \in 1..Len(C) : LET T == [n \in 1..Len(C[m]) |-> Ten(e.en, C[m][n])] IN
          \A j \in 1..Len(e.en.nb) : \A a \in 1..3 :
            e.g[m][j][a] = Sum([n \in 1..Len(C[m]) |-> Contract([T EXCEPT ![n] = DTen(e.en, C[m][n], j, a)], Rk(C[m]))]) THEN {} ELSE {"the gradient of a basis function is exact"})
  \cup (IF e.pad THEN {} ELSE {"padding contributes nothing"})
(* values in double precision lie on their grids to nine digits *)
FailFine(e) == IF e.fine <= 1000 THEN {} ELSE {"double precision values are exact to nine digits"}
MFail(s, e) == IF e.err # "" THEN {"the call answers"} ELSE
   (IF e.op \in {"radial", "q", "moment"} THEN FailFine(e) ELSE {}) \cup
   CASE e.op = "radial" -> FailRadial(e) [] e.op = "q" -> FailQ(e) [] e.op = "angular" -> FailAng(e) [] e.op = "moment" -> FailMom(e) [] e.op = "basis" -> FailBasis(e)
=============================================================================
