------------------------------- MODULE CoreLib -------------------------------
(***************************************************************************)
(* The vectors and arrays the compiled parts are built from.               *)
(*   v  registers holding three-component vectors (integers)               *)
(*   a  aligned arrays: sequences; an element is unset (0) after its array *)
(*      was made or resized                                                *)
(*   t  tables of three, four or five dimensions (0: none): dimensions,    *)
(*      the elements that were written, and whether the rest is zero       *)
(* Copies are independent of what they were copied from.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Map3(f(_)) == <<f(1), f(2), f(3)>>
VNeg(x) == Map3(LAMBDA i : -x[i])
VAdd(x, y) == Map3(LAMBDA i : x[i] + y[i])
VSub(x, y) == Map3(LAMBDA i : x[i] - y[i])
VMul(x, k) == Map3(LAMBDA i : x[i] * k)
Quot(x, k) == IF k < 0 THEN (-x) \div (-k) ELSE x \div k
VDot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
VCross(x, y) == <<x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1]>>
(* outer power: 3^(n-1) rows of three; entry (r, c) is the product of the components named by the base-3 digits of 3 r + c *)
RECURSIVE Digits(_, _)
Digits(m, n) == IF n = 0 THEN <<>> ELSE Append(Digits(m \div 3, n - 1), m % 3)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Power(x, n) == [m \in 1..Pow(3, n) |-> LET d == Digits(m - 1, n) IN Prod([j \in 1..n |-> x[d[j] + 1]])]
(* ---- transitions ---- *)
New(nv, na) == [v |-> [i \in 1..nv |-> <<0, 0, 0>>], a |-> [i \in 1..na |-> <<>>], t |-> [dim |-> <<>>, zero |-> FALSE, set |-> {}]]
Fits(x) == \A i \in 1..3 : x[i] < 1000 /\ x[i] > -1000
Unset(n) == [i \in 1..n |-> 0]
Step(s, o) ==
  CASE o.op = "set" -> [s EXCEPT !.v[o.i] = o.x]
    [] o.op = "put" -> [s EXCEPT !.v[o.i][o.k] = o.n]
    [] o.op = "plus" -> [s EXCEPT !.v[o.i] = s.v[o.j]]
    [] o.op = "neg" -> [s EXCEPT !.v[o.i] = VNeg(s.v[o.j])]
    [] o.op \in {"add", "addto"} -> [s EXCEPT !.v[o.i] = VAdd(s.v[o.j], s.v[o.k])]
    [] o.op \in {"sub", "subto"} -> [s EXCEPT !.v[o.i] = VSub(s.v[o.j], s.v[o.k])]
    [] o.op \in {"mul", "mulleft", "multo"} -> [s EXCEPT !.v[o.i] = VMul(s.v[o.j], o.n)]
    [] o.op \in {"div", "divto"} -> [s EXCEPT !.v[o.i] = Map3(LAMBDA c : Quot(s.v[o.j][c], o.n))]
    [] o.op = "cross" -> [s EXCEPT !.v[o.i] = VCross(s.v[o.j], s.v[o.k])]
    [] o.op = "make" -> [s EXCEPT !.a[o.i] = Unset(o.n)]
    [] o.op = "resize" -> [s EXCEPT !.a[o.i] = Unset(o.n)]
    [] o.op = "write" -> [s EXCEPT !.a[o.i][o.k] = o.n]
    [] o.op \in {"copy", "assign"} -> [s EXCEPT !.a[o.i] = s.a[o.j]]
    [] o.op = "grow" -> s                                         \* a collection of arrays is moved to a larger place
    [] o.op = "table" -> [s EXCEPT !.t = [dim |-> o.dim, zero |-> o.zero, set |-> {}]]
    [] o.op = "fill" -> [s EXCEPT !.t.set = {y \in s.t.set : y[1] # o.at} \cup {<<o.at, o.n>>}]
    [] o.op = "free" -> [s EXCEPT !.t = [dim |-> <<>>, zero |-> FALSE, set |-> {}]]
    [] OTHER -> s
(* which steps a client may take *)
May(s, o) ==
  CASE o.op \in {"div", "divto"} -> o.n # 0 /\ \A c \in 1..3 : s.v[o.j][c] % (IF o.n < 0 THEN -o.n ELSE o.n) = 0
    [] o.op \in {"addto", "subto", "multo", "divto"} -> o.i = o.j
    [] o.op = "power" -> LET most == <<999, 999, 500, 110, 45>>[o.n] IN \A c \in 1..3 : s.v[o.i][c] <= most /\ -s.v[o.i][c] <= most
    [] o.op = "write" -> o.k \in 1..Len(s.a[o.i])
    [] o.op = "fill" -> Len(o.at) = Len(s.t.dim) /\ s.t.dim # <<>> /\ \A i \in 1..Len(o.at) : o.at[i] \in 1..s.t.dim[i]
    [] o.op = "free" -> s.t.dim # <<>>
    [] o.op = "table" -> s.t.dim = <<>>
    [] OTHER -> TRUE
Legal(s, o) == May(s, o) /\ (o.op \in {"divto"} => o.i = o.j) /\ \A i \in 1..Len(s.v) : Fits(Step(s, o).v[i])
=============================================================================
