------------------------------ MODULE MtpMomMC ------------------------------
(* Random inputs of the radial functions, the tensor powers, the moments and the basis functions; on the environments TLC checks   *)
(* that the contracted values do not change under the order of the neighbours and the rotations and reflections of the axes.        *)
EXTENDS MtpMom, TLC, Json
CONSTANT MaxL
VARIABLES phase, kind, c
L == INSTANCE MtpLevel
R(S) == RandomElement(S)
\* vectors with integer length
Base == << <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<1, 2, 2>>, <<4, 0, 0>>, <<3, 4, 0>>, <<5, 0, 0>>, <<4, 4, 2>>, <<2, 3, 6>>, <<1, 2, 2>>, <<2, 2, 1>> >>
Len3(x) == CHOOSE n \in 0..20 : n * n = x[1] * x[1] + x[2] * x[2] + x[3] * x[3]
Perms == {p \in [1..3 -> 1..3] : Cardinality({p[1], p[2], p[3]}) = 3}
Signs == [1..3 -> {-1, 1}]
Turn(x, p, s) == <<s[1] * x[p[1]], s[2] * x[p[2]], s[3] * x[p[3]]>>
Vec(far) == Turn(Base[R(1..far)], R(Perms), R(Signs))
Init == phase = "kind" /\ kind = "" /\ c = <<>>
Kind == /\ phase = "kind" /\ \E k \in {R({"radial", "q", "angular", "moment", "moment", "basis", "basis"})} : kind' = k /\ phase' = "fill" /\ UNCHANGED c
Radials(x) == \E N \in {R({4, 6, 8, 10})}, rs \in {R(1..3)}, w \in {R(1..5)} : \E m \in {R(1..7)} :
             \E ks \in {[i \in 1..m |-> LET k == R((0 - 2)..(N + 2)) IN IF rs * N + k * w < 0 THEN 0 ELSE k]} :
             c' = [N |-> N, size |-> R(1..(CASE N = 4 -> 9 [] N = 6 -> 6 [] N = 8 -> 5 [] OTHER -> 4)), rs |-> rs, w |-> w, ks |-> ks]
Qs(x) == \E N \in {R({4, 6, 8})}, rs \in {R(1..3)}, w \in {R(1..4)}, size \in {R(1..4)}, m \in {R(1..5)} :
         \E ks \in {[i \in 1..m |-> LET k == R((0 - 1)..(N + 1)) IN IF rs * N + k * w < 0 THEN 0 ELSE k]}, v \in {[i \in 1..m |-> Vec(11)]} :
         \E go \in {[i \in 1..m |-> [n \in 1..size |-> R((0 - 2)..2)]]} :
         c' = [N |-> N, size |-> size, rs |-> rs, w |-> w, ks |-> ks, v |-> v, nv |-> [i \in 1..m |-> Len3(v[i])], go |-> go]
Angs(x) == \E m \in {R(1..4)}, nu \in {R(0..4)} : \E v \in {[i \in 1..m |-> <<R((0 - 3)..3), R((0 - 3)..3), R((0 - 3)..3)>>]} :
           \E go \in {[i \in 1..m |-> [n \in 1..Pow(3, nu) |-> R((0 - 2)..2)]]} : c' = [nu |-> nu, v |-> v, go |-> go]
Env(N, rs, size, nmu, nt, far, big, most) ==
  LET n == R(1..most)
  IN [N |-> N, rs |-> rs, size |-> size, zi |-> R(0..(nt - 1)),
      nb |-> [i \in 1..n |-> LET x == Vec(far) IN [x |-> x, r |-> Len3(x), k |-> Len3(x) - rs, z |-> R(0..(nt - 1))]]]
Coef(nmu, nt, size, big) == [m \in 1..nmu |-> [i \in 1..nt |-> [j \in 1..nt |-> [n \in 1..size |-> R((0 - big)..big)]]]]
Moments(x) == \E rs \in {R(1..3)}, size \in {R(1..4)}, nmu \in {R(1..3)}, nt \in {R(1..3)} : \E e \in {Env(4, rs, size, nmu, nt, 9, 3, 5)}, co \in {Coef(nmu, nt, size, 3)} :
              c' = [en |-> e @@ [co |-> co], nt |-> nt, nmu |-> nmu, mu |-> R(0..(nmu - 1)), nu |-> R(0..3)]
NMu(l) == IF l < 2 THEN 1 ELSE (l - 2) \div 4 + 1
Bases(x) == \E l \in {R(2..MaxL)}, rs \in {R(1..3)}, size \in {R(1..3)}, nt \in {R(1..2)}, B \in {R(1..2)}, C \in {R(1..2)} :
            \E es \in {[b \in 1..B |-> [q \in 1..C |-> Env(2, rs, size, NMu(l), nt, 4, 1, 3)]]}, co \in {Coef(NMu(l), nt, size, 1)} :
            c' = [level |-> l, size |-> size, nt |-> nt, nmu |-> NMu(l), rs |-> rs, co |-> co,
                  en |-> [b \in 1..B |-> [q \in 1..C |-> es[b][q] @@ [co |-> co]]], grad |-> l <= 8]
Fill == /\ phase = "fill" /\ phase' = "done" /\ UNCHANGED kind
        /\ IF kind = "radial" THEN Radials(0) ELSE IF kind = "q" THEN Qs(0) ELSE IF kind = "angular" THEN Angs(0) ELSE IF kind = "moment" THEN Moments(0) ELSE Bases(0)
Next == Kind \/ Fill
PrintCase == phase = "done" => PrintT("VFCASE " \o ToJson([kind |-> kind, c |-> c]))
\* ---- invariance of the specification's own basis functions
Value(en, comb) == LET b == SortSeq(comb, LAMBDA x, y : x[2] >= y[2])
                       ten(p) == LET t == Moment(en, p[1], p[2]) IN [i \in DOMAIN t |-> t[i] \div 16]
                   IN Contract([m \in 1..Len(b) |-> ten(b[m])], [m \in 1..Len(b) |-> b[m][2]])
Moved(en, p, s) == [en EXCEPT !.nb = [j \in 1..Len(en.nb) |-> [en.nb[Len(en.nb) + 1 - j] EXCEPT !.x = Turn(en.nb[Len(en.nb) + 1 - j].x, p, s)]]]
Invariance == phase = "done" /\ kind = "basis" => LET en == c.en[1][1] IN
   \A comb \in L!Basis(IF c.level > 8 THEN 8 ELSE c.level) : \A p \in Perms : \A s \in {<<1, 1, 1>>, <<-1, 1, 1>>, <<1, -1, -1>>} : Value(Moved(en, p, s), comb) = Value(en, comb)
\* Q falls to zero with its slope at the cutoff, T_n stays between -1 and 1, and the slopes are those of the values (trapezium rule on the grid, coarse)
Radial0 == \A N \in {4, 8} : Sw(0, N) = Pow(N, 5) /\ DSw(0, N) = 0 /\ DSw(N, N) = 0 /\ Sw(N, N) = 0
              /\ \A k \in 0..(N - 1) : /\ Sw(k, N) > Sw(k + 1, N)
                 /\ \A n \in 0..4 : LET t == Cheb(4, k - N \div 2, N \div 2)[n + 1] IN t <= Pow(N \div 2, n) /\ t >= 0 - Pow(N \div 2, n)
=============================================================================
