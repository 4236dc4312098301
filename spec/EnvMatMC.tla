------------------------------- MODULE EnvMatMC -------------------------------
(* Tables of neighbours: one atom with every small offset (mode "all"), or random atoms, centres and lists.  The theorems say that f *)
(* falls from 1 to 0 and that the slopes agree with the differences of the values.                                              *)
EXTENDS EnvMat, TLC, Json, SequencesExt
CONSTANTS Mode, MaxAtoms, Batch
VARIABLES phase, qs, sel, unit
R(S) == RandomElement(S)
Cuts == {<<1, 4>>, <<4, 12>>, <<5, 13>>, <<2, 18>>, <<6, 7>>, <<9, 17>>, <<8, 12>>, <<3, 14>>}
Offsets == {v \in (-3..3) \X (-3..3) \X (-3..3) : v # Zero3}
AllQ(c) == LET vs == SetToSeq(Offsets) IN
   [x |-> <<<<0, 0, 0>>>> \o vs, t |-> [i \in 1..(Len(vs) + 1) |-> i % 2], centres |-> <<0>>, nb |-> <<[i \in 1..Len(vs) |-> i]>>, rsh |-> c[1], rch |-> c[2]]
(* offsets of integer length are frequent: there the fixed point numbers are nearly exact *)
Triples == {<<1,2,2>>, <<2,1,-2>>, <<3,4,0>>, <<0,-4,3>>, <<2,3,6>>, <<-6,2,3>>, <<4,4,7>>, <<0,5,0>>, <<0,0,-2>>, <<1,0,0>>, <<4,4,2>>, <<1,4,8>>, <<2,-2,1>>}
RECURSIVE Place(_, _)
Place(xs, n) == IF Len(xs) >= n THEN xs ELSE
   LET p == IF R(1..3) # 1 THEN VAdd(xs[R(1..Len(xs))], R(Triples)) ELSE <<R(-5..5), R(-5..5), R(-5..5)>>
   IN Place(IF p \in SeqSet(xs) \/ Norm2(p) > 250 THEN xs ELSE Append(xs, p), n)
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET y == R(S) IN <<y>> \o Perm(S \ {y})
Some(S, d) == {z \in S : R(1..4) # d}
RndQ(n, nc, nt, c) ==
   LET cs == SubSeq(Perm(0..(n - 1)), 1, nc)
   IN [x |-> Place(<<<<R(-2..2), R(-2..2), R(-2..2)>>>>, n), t |-> [i \in 1..n |-> R(0..(nt - 1))], centres |-> cs,
       nb |-> [i \in 1..nc |-> Perm(Some((0..(n - 1)) \ {cs[i]}, R(1..4)))], rsh |-> c[1], rch |-> c[2]]
Need(q, k) == SetMax({Len(Of(q, i, k)) : i \in 1..Len(q.centres)})
Init == phase = "pick" /\ qs = <<>> /\ sel = <<>> /\ unit = 4
Pick == /\ phase = "pick"
        /\ IF Mode = "all" THEN (\E c \in Cuts, u \in {4, 5} : qs' = <<AllQ(c)>> /\ sel' = <<Need(AllQ(c), 0), Need(AllQ(c), 1)>> /\ unit' = u) /\ phase' = "ready"
           ELSE /\ \E n \in {R(2..MaxAtoms)}, nt \in {R(1..3)}, b \in {R(1..Batch)}, c \in {R(Cuts)} : \E nc \in {R(1..n)} :
                     \E qq \in {[i \in 1..b |-> RndQ(n, nc, nt, c)]} : qs' = qq /\ sel' = [k \in 1..nt |-> 0]
                /\ unit' = R({3, 4, 5, 6}) /\ phase' = "size"
Size == /\ phase = "size" /\ phase' = "ready" /\ UNCHANGED <<qs, unit>>
        /\ \E s \in {[k \in 1..Len(sel) |-> SetMax({Need(qs[b], k - 1) : b \in 1..Len(qs)}) + R({0, 0, 1, 2})]} : SumSeq(s) > 0 /\ sel' = s
Done == phase = "ready" /\ phase' = "done" /\ UNCHANGED <<qs, sel, unit>>
Retry == Mode = "random" /\ phase \in {"pick", "size"} /\ phase' = "pick" /\ UNCHANGED <<qs, sel, unit>>
Next == Pick \/ Size \/ Done \/ Retry
Cut(q) == [rsh |-> q.rsh, rch |-> q.rch]
Falls == phase = "ready" /\ Mode = "all" => LET c == Cut(qs[1]) IN
   \A d \in 1..120 : F(d, c) \in -4..(Q + 4) /\ (F(d + 1, c) <= F(d, c) + 6) /\ DF(d, c) <= 2
(* along an axis and across it: the value changes by the slope, within the curvature over a whole grid unit *)
Mirror == phase = "ready" /\ Mode = "all" => LET c == Cut(qs[1]) IN
   \A v \in Offsets : LET a == Value(v, c)
                          b == Value(VNeg(v), c)
                      IN a[1] = b[1] /\ \A k \in 2..4 : Near(a[k], -b[k], 1)
(* for r = 3, 4, .. 9 along an axis, far enough apart cutoffs: the mean of the end slopes is the difference (trapezium rule) *)
Trapezium == phase = "ready" /\ Mode = "all" => LET c == Cut(qs[1]) IN
   (c.rch - c.rsh >= 16) => \A r \in 3..9 : LET v == <<r, 0, 0>>
                                             w == <<r + 1, 0, 0>>
                                         IN Near(2 * (Value(w, c)[1] - Value(v, c)[1]), Slope(v, c)[1][1] + Slope(w, c)[1][1], 900)
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([qs |-> qs, sel |-> sel, unit |-> unit]))
=============================================================================
