------------------------------ MODULE CoreLibMC ------------------------------
EXTENDS CoreLib, Json
CONSTANTS Depth, NV, NA
VARIABLES s, hist
R(S) == RandomElement(S)
RX(i) == R({0, 1, -1, R(-9..9), R(-99..99)})
RV(i) == <<RX(1), RX(2), RX(3)>>
Dims(k) == [i \in 1..k |-> R({1, 2, 3, R(0..6)})]
At(d) == [i \in 1..Len(d) |-> IF d[i] = 0 THEN 1 ELSE R(1..d[i])]
Pick(x) ==
  LET i == R(1..NV)
      j == R(1..NV)
      k == R(1..NV)
      p == R(1..NA)
      q == R(1..NA)
      w == R(1..26)
  IN CASE w = 1 -> [op |-> "set", i |-> i, x |-> RV(1)]
       [] w = 2 -> [op |-> "put", i |-> i, k |-> R(1..3), n |-> RX(1)]
       [] w = 3 -> [op |-> R({"plus", "neg"}), i |-> i, j |-> j]
       [] w = 4 -> [op |-> R({"add", "sub", "cross"}), i |-> i, j |-> j, k |-> k]
       [] w = 5 -> [op |-> R({"addto", "subto"}), i |-> i, j |-> i, k |-> k]
       [] w = 6 -> [op |-> R({"mul", "mulleft"}), i |-> i, j |-> j, n |-> R(-4..4)]
       [] w = 7 -> [op |-> "multo", i |-> i, j |-> i, n |-> R(-4..4)]
       [] w = 8 -> [op |-> "div", i |-> i, j |-> j, n |-> R({1, 2, 4, 8, -2, -1})]
       [] w = 9 -> [op |-> "divto", i |-> i, j |-> i, n |-> R({1, 2, 4, -2})]
       [] w = 10 -> [op |-> "dot", i |-> i, j |-> j]
       [] w = 11 -> [op |-> "same", i |-> i, j |-> j]
       [] w = 12 -> [op |-> "plain", i |-> i, j |-> j]
       [] w = 13 -> [op |-> "power", i |-> i, n |-> R(1..5)]
       [] w = 14 -> [op |-> "text", i |-> i]
       [] w = 15 -> [op |-> "make", i |-> p, n |-> R({0, 1, 2, R(3..40)})]
       [] w \in {16, 17} -> [op |-> "resize", i |-> p, n |-> R({0, 1, 2, Len(s.a[p]), R(3..40)})]
       [] w \in {18, 19, 20} -> [op |-> "write", i |-> p, k |-> R(1..(Len(s.a[p]) + 1)), n |-> R(1..999)]
       [] w = 21 -> [op |-> R({"copy", "assign"}), i |-> p, j |-> q]
       [] w = 22 -> [op |-> "grow"]
       [] w \in {23} -> [op |-> "table", dim |-> Dims(R(3..5)), zero |-> R(1..3) < 3]
       [] w \in {24, 25} -> [op |-> "fill", at |-> At(s.t.dim), n |-> R(1..999)]
       [] OTHER -> [op |-> "free"]
Init == s = New(NV, NA) /\ hist = <<>>
Do == Len(hist) < Depth /\ \E o \in {Pick(1)} : IF Legal(s, o) THEN s' = Step(s, o) /\ hist' = Append(hist, o) ELSE UNCHANGED <<s, hist>>
Next == Do
(* laws of the vectors the sessions come by *)
Laws == \A i, j \in 1..NV : LET x == s.v[i]  y == s.v[j] IN
          /\ VCross(x, y) = VNeg(VCross(y, x)) /\ VDot(VCross(x, y), x) = 0 /\ VSub(VAdd(x, y), y) = x
          /\ (\A c \in 1..3 : x[c] < 30 /\ x[c] > -30) => (Power(x, 1) = x /\ \A a, b \in 1..3 : Power(x, 2)[3 * (a - 1) + b] = x[a] * x[b])
Inside == \A y \in s.t.set : \A i \in 1..Len(s.t.dim) : y[1][i] \in 1..s.t.dim[i]
PrintCase == Len(hist) = Depth => PrintT("VFCASE " \o ToJson([hist |-> hist, nv |-> NV, na |-> NA]))
=============================================================================
