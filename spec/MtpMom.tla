------------------------------- MODULE MtpMom -------------------------------
(***************************************************************************)
(* Radial functions, moments and basis functions of a moment tensor        *)
(* potential, exactly, in integers.  A distance is r = rs + k w / N with   *)
(* w = rc - rs; h = N / 2.  Everything is scaled by its common             *)
(* denominator:                                                            *)
(*   sw(r)     * N^5          the switch 1 + u^3 (-6 u^2 + 15 u - 10)      *)
(*   T_n(xi)   * h^n          Chebyshev, xi = (2r - rc - rs) / w           *)
(*   Q_n       * N^5 h^n      and zero unless rs <= r < rc                 *)
(*   dQ_n/dr   * w N^5 h^n                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Sw(k, N) == k * k * k * (15 * k * N - 6 * k * k - 10 * N * N) + Pow(N, 5)
DSw(k, N) == 60 * k * k * k * N - 30 * k * k * k * k - 30 * k * k * N * N
RECURSIVE Cheb(_, _, _)
Cheb(n, a, h) == IF n = 0 THEN <<1>> ELSE IF n = 1 THEN <<1, a>> ELSE
   LET s == Cheb(n - 1, a, h) IN Append(s, 2 * a * s[n] - h * h * s[n - 1])
RECURSIVE DCheb(_, _, _)
\* derivative by xi of T_n, times h^(n-1)
DCheb(n, a, h) == IF n = 0 THEN <<0>> ELSE IF n = 1 THEN <<0, 1>> ELSE
   LET s == DCheb(n - 1, a, h)
       c == Cheb(n - 1, a, h) IN Append(s, 2 * c[n] + 2 * a * s[n] - (IF n = 2 THEN 0 ELSE h * h * s[n - 1]))
Inside(k, N) == 0 <= k /\ k < N
TVals(size, k, N) == Cheb(size - 1, k - N \div 2, N \div 2)
TDers(size, k, N) == DCheb(size - 1, k - N \div 2, N \div 2)
QVals(size, k, N) == [n \in 1..size |-> IF Inside(k, N) THEN Sw(k, N) * TVals(size, k, N)[n] ELSE 0]
QDers(size, k, N) == [n \in 1..size |-> IF Inside(k, N) THEN N * DSw(k, N) * TVals(size, k, N)[n] + 2 * (N \div 2) * Sw(k, N) * TDers(size, k, N)[n] ELSE 0]
Zeros(n) == [i \in 1..n |-> 0]
\* tensors of rank nu: functions on index tuples
Idx(nu) == IF nu = 0 THEN {<<>>} ELSE [1..nu -> 1..3]
Prod(x, i) == FoldFunction(LAMBDA p, q : p * q, 1, [p \in DOMAIN i |-> x[i[p]]])
SumS(S, f(_)) == MapThenSumSet(f, S)
Sum(s) == FoldFunction(+, 0, s)
\* the k-th entry of a tensor laid out row by row
RECURSIVE Place(_)
Place(i) == IF i = <<>> THEN 0 ELSE 3 * Place(SubSeq(i, 1, Len(i) - 1)) + i[Len(i)] - 1
(* An environment: centre type zi, neighbours [x, z, k] with |x| = r on the grid, coefficients co[mu+1][zi+1][zj+1] of length size. *)
(* f of a neighbour, times N^5 h^(size-1); its derivative by r, times w N^5 h^(size-1).                                            *)
Radial(c, nb, v) == Sum([n \in 1..Len(c) |-> c[n] * v[n] * Pow(nb.h, Len(c) - n)])
F(en, mu, j) == LET b == en.nb[j] IN Radial(en.co[mu + 1][en.zi + 1][b.z + 1], [h |-> en.N \div 2], QVals(en.size, b.k, en.N))
DF(en, mu, j) == LET b == en.nb[j] IN Radial(en.co[mu + 1][en.zi + 1][b.z + 1], [h |-> en.N \div 2], QDers(en.size, b.k, en.N))
Moment(en, mu, nu) == LET f == [j \in 1..Len(en.nb) |-> F(en, mu, j)] IN
   [i \in Idx(nu) |-> Sum([j \in 1..Len(en.nb) |-> f[j] * Prod(en.nb[j].x, i)])]
\* contraction of the moments of a combination, given from high to low rank; bs: their tensors, rk: their ranks
RECURSIVE Others(_, _, _, _)
Others(bs, rk, m, i) == IF m > Len(bs) THEN 1 ELSE bs[m][SubSeq(i, 1, rk[m])] * Others(bs, rk, m + 1, SubSeq(i, rk[m] + 1, Len(i)))
RECURSIVE ByTwos(_, _)
ByTwos(bs, rk) == IF bs = <<>> THEN 1 ELSE IF rk[1] = 0 THEN bs[1][<<>>] * ByTwos(Tail(bs), Tail(rk))
   ELSE SumS(Idx(rk[1]), LAMBDA i : bs[1][i] * bs[2][i]) * ByTwos(SubSeq(bs, 3, Len(bs)), SubSeq(rk, 3, Len(rk)))
Contract(bs, rk) == IF 2 * rk[1] = Sum(rk) THEN SumS(Idx(rk[1]), LAMBDA i : bs[1][i] * Others(bs, rk, 2, i)) ELSE ByTwos(bs, rk)
=============================================================================
