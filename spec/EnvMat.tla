-------------------------------- MODULE EnvMat --------------------------------
(* Environment matrices of DeepPot-SE.  A neighbour at offset v (grid units, r = |v| >= 1) of a centre gives the row     *)
(*    << s, s x/r, s y/r, s z/r >>,   s = f(r)/r,                                                                        *)
(* f = 1 inside the smooth cutoff, 0 from the cutoff on, and u^3(-6u^2+15u-10)+1 between, u = (r-rs)/(rc-rs).            *)
(* Cutoffs are in half grid units (rsh < rch).  Numbers are fixed point with 15 fractional bits; TLC's integers have 32  *)
(* bits, so each product below is arranged to stay under 2^31.  Error bounds: f 8, its slope 12 units.                   *)
EXTENDS Crystal
Q == 32768
Mul(a, b) == (a * b + 16384) \div Q
(* r with 15 bits: 10 by an exact integer square root, the others by one Newton step *)
Root15(d2) == LET up == CeilSqrt(d2 * 1048576)
                  r == IF up * up = d2 * 1048576 THEN up ELSE up - 1
              IN r * 32 + ((d2 * 1048576 - r * r) * 32) \div (2 * r)
OverR(a, d2) == (a * 8192) \div ((Root15(d2) + 2) \div 4)                   \* a / r
U(d2, c) == (2 * Root15(d2) - c.rsh * Q + (c.rch - c.rsh) \div 2) \div (c.rch - c.rsh)
(* x^3 (10 - 15 x + 6 x^2) for 0 <= x <= 1/2 *)
Step(x) == LET x3 == ((((x * x) \div 8192) * x) + 16384) \div Q              \* 17 bits
           IN (x3 * ((10 * Q - 15 * x + 6 * Mul(x, x)) \div 16) + 4096) \div 8192
Inside(d2, c) == 4 * d2 < c.rsh * c.rsh
Outside(d2, c) == 4 * d2 >= c.rch * c.rch
F(d2, c) == IF Inside(d2, c) THEN Q ELSE IF Outside(d2, c) THEN 0 ELSE
            LET u == U(d2, c) IN IF 2 * u <= Q THEN Q - Step(u) ELSE Step(Q - u)
(* df/dr = -30 u^2 (1-u)^2 / (rc-rs) *)
DF(d2, c) == IF Inside(d2, c) \/ Outside(d2, c) THEN 0 ELSE
             LET u == U(d2, c)
                 y == (u * (Q - u)) \div 8192                                \* 17 bits
             IN -((2 * ((30 * ((y * y) \div 16)) \div Q)) \div (c.rch - c.rsh))
Value(v, c) == LET d2 == Norm2(v)
                   f == F(d2, c)
               IN <<OverR(f, d2), (f * v[1]) \div d2, (f * v[2]) \div d2, (f * v[3]) \div d2>>
(* Slope(v)[k][l]: derivative of entry k of the row with respect to component l of v *)
Slope(v, c) == LET d2 == Norm2(v)
                   f == F(d2, c)
                   df == DF(d2, c)
                   s == OverR(f, d2)
                   b == OverR(df, d2) - (2 * f) \div d2
               IN <<[l \in 1..3 |-> ((df - s) * v[l]) \div d2]>>
                  \o [k \in 1..3 |-> [l \in 1..3 |-> (b * v[k] * v[l]) \div d2 + (IF k = l THEN f \div d2 ELSE 0)]]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
TolV == 14
TolD == 32
ValueOk(x, v, c) == LET w == Value(v, c) IN Len(x) = 4 /\ \A k \in 1..4 : Near(x[k], w[k], TolV)
SlopeOk(x, v, c, sign) == LET w == Slope(v, c) IN Len(x) = 4 /\ \A k \in 1..4 : Len(x[k]) = 3 /\ \A l \in 1..3 : Near(x[k][l], sign * w[k][l], TolD)
ZeroV(x) == x = <<0, 0, 0, 0>>
ZeroD(x) == x = <<Zero3, Zero3, Zero3, Zero3>>
(* ---- tables: positions x, types t (0, 1, ...), centres (0-based), nb[i] the 0-based atoms listed for centre i, sel[t+1] *)
(* the number of slots of type t.  Row i holds, type by type, the neighbours of that type in the order listed.           *)
Off(sel, t) == SumSeq(SubSeq(sel, 1, t))
Of(q, i, t) == SelectSeq(q.nb[i], LAMBDA j : q.t[j + 1] = t)
Vec(q, i, j) == VSub(q.x[j + 1], q.x[q.centres[i] + 1])
FailRow(q, i, no, sel, e, row) ==
  LET c == [rsh |-> q.rsh, rch |-> q.rch]
      slots(k) == {s \in 1..sel[k] : TRUE}
      tab(k) == [s \in 1..sel[k] |-> Off(sel, k - 1) + s]
      lst(k) == Of(q, i, no[k])
  IN (IF \A k \in 1..Len(no) : \A s \in slots(k) : IF s <= Len(lst(k)) THEN ValueOk(e.r[row][tab(k)[s]], Vec(q, i, lst(k)[s]), c) ELSE ZeroV(e.r[row][tab(k)[s]])
      THEN {} ELSE {"each slot holds the values of its own neighbour, unused slots zero"})
     \cup (IF ~e.hasd \/ \A k \in 1..Len(no) : \A s \in slots(k) : IF s <= Len(lst(k)) THEN SlopeOk(e.d[row][tab(k)[s]], Vec(q, i, lst(k)[s]), c, e.sign) ELSE ZeroD(e.d[row][tab(k)[s]])
      THEN {} ELSE {"each slot holds the derivatives of its own neighbour, unused slots zero"})
     \cup (IF ~e.hasv \/ \A k \in 1..Len(no) : \A s \in slots(k) : e.v[row][tab(k)[s]] = IF s <= Len(lst(k)) THEN Vec(q, i, lst(k)[s]) ELSE Zero3
      THEN {} ELSE {"each slot holds the offset of its own neighbour, unused slots zero"})
     \cup (IF ~e.hasp \/ \A k \in 1..Len(no) : \A s \in slots(k) : e.p[row][tab(k)[s]] = IF s <= Len(lst(k)) THEN lst(k)[s] % Len(q.centres) ELSE -1
      THEN {} ELSE {"each slot names the original of its own neighbour, unused slots -1"})
(* which centres the rows stand for: all in order, or grouped by type in the order asked for *)
RECURSIVE ByType(_, _)
ByType(q, co) == IF co = <<>> THEN <<>> ELSE SelectSeq([i \in 1..Len(q.centres) |-> i], LAMBDA i : q.t[q.centres[i] + 1] = co[1]) \o ByType(q, Tail(co))
Rows(q, e) == IF e.grouped THEN ByType(q, e.co) ELSE [i \in 1..Len(q.centres) |-> i]
FailTable(q, e) ==
  LET rows == Rows(q, e)
      w == SumSeq(e.sel)
      full(a) == Len(a) = Len(rows) /\ \A i \in 1..Len(rows) : Len(a[i]) = w
  IN IF e.err # "" THEN {"the environment matrix is computed"} ELSE
     IF ~(full(e.r) /\ (e.hasd => full(e.d)) /\ (e.hasv => full(e.v)) /\ (e.hasp => full(e.p))) THEN {"one row per centre, one slot group per neighbour type"} ELSE
     UNION {FailRow(q, rows[i], e.no, e.sel, e, i) : i \in 1..Len(rows)}
(* ---- crystals: who is a neighbour is the neighbour list's business; a row holds, species by species, its neighbours    *)
(* from near to far.  co, no: the species asked for as centres and as neighbours.                                        *)
NL == INSTANCE NbList
Others(ex, qy, i, z) == {p[2] : p \in {y \in ex[i] : qy.z[y[1]] = z}}
CrystalWidths(qy, no, cs) == LET ex == NL!Expected(qy) IN [k \in 1..Len(no) |-> SetMax({0} \cup {Cardinality(Others(ex, qy, i, no[k])) : i \in cs})]
RECURSIVE OfSpecies(_, _)
OfSpecies(z, co) == IF co = <<>> THEN <<>> ELSE SelectSeq([i \in 1..Len(z) |-> i], LAMBDA i : z[i] = co[1]) \o OfSpecies(z, Tail(co))
FailSlots(vs, c, x, d, hasd, sign, width) ==
  LET n == Cardinality(vs)
      fits(s, v) == ValueOk(x[s], v, c) /\ (~hasd \/ SlopeOk(d[s], v, c, sign))
  IN IF n > width THEN {"the row has room for its neighbours"} ELSE
     (IF (\A s \in 1..n : \E v \in vs : ValueOk(x[s], v, c)) /\ (\A v \in vs : \E s \in 1..n : ValueOk(x[s], v, c)) THEN {} ELSE {"the row holds the values of exactly its neighbours"})
     \cup (IF ~hasd \/ ((\A s \in 1..n : \E v \in vs : fits(s, v)) /\ (\A v \in vs : \E s \in 1..n : fits(s, v))) THEN {} ELSE {"the row holds the derivatives of exactly its neighbours, each beside its values"})
     \cup (IF \A s \in (n + 1)..width : ZeroV(x[s]) /\ (hasd => ZeroD(d[s])) THEN {} ELSE {"unused slots are zero"})
     \cup (IF \A s \in 1..(n - 1) : x[s][1] >= x[s + 1][1] - TolV THEN {} ELSE {"neighbours run from near to far"})
(* e.r, e.d: one row per centre; e.sel: the widths *)
FailCrystal(qy, e) ==
  LET ex == NL!Expected(qy)
      c == [rsh |-> qy.rsh, rch |-> qy.rch]
      rows == OfSpecies(qy.z, e.co)
      w == SumSeq(e.sel)
      cut(a, k) == SubSeq(a, Off(e.sel, k - 1) + 1, Off(e.sel, k))
  IN IF e.err # "" THEN {"the environment matrix is computed"} ELSE
     IF ~(Len(e.r) = Len(rows) /\ (\A i \in 1..Len(rows) : Len(e.r[i]) = w) /\ (e.hasd => Len(e.d) = Len(rows) /\ \A i \in 1..Len(rows) : Len(e.d[i]) = w)) THEN {"one row per centre, one slot group per neighbour species"} ELSE
     UNION {FailSlots(Others(ex, qy, rows[i], e.no[k]), c, cut(e.r[i], k), IF e.hasd THEN cut(e.d[i], k) ELSE <<>>, e.hasd, e.sign, e.sel[k]) : i \in 1..Len(rows), k \in 1..Len(e.no)}
=============================================================================
