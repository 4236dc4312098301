------------------------------- MODULE Bands -------------------------------
(* Band structures: energies r.eig[s][k][b] of spin s (1: up, 2: down), k-point k and band b, in 1E-4 eV,      *)
(* and the Fermi energy r.raw (in 1E-5 eV, as printed), used rounded to 1E-3 eV.                              *)
EXTENDS Integers, Sequences, FiniteSets
BAbs(x) == IF x < 0 THEN -x ELSE x
NK(r) == Len(r.eig[1])
NB(r) == Len(r.eig[1][1])
States(r) == {<<s, k, b>> : s \in 1..Len(r.eig), k \in 1..NK(r), b \in 1..NB(r)}
E(r, x) == r.eig[x[1]][x[2]][x[3]]
Fermi3(r) == (r.raw + 50) \div 100             \* in 1E-3 eV
EF(r) == 10 * Fermi3(r)                        \* in 1E-4 eV
Below(r) == {x \in States(r) : E(r, x) < EF(r)}
Above(r) == {x \in States(r) : E(r, x) > EF(r)}
(* A metal: some band of some spin lies on both sides of the Fermi energy. *)
Metal(r) == \E x \in Below(r), y \in Above(r) : x[1] = y[1] /\ x[3] = y[3]
CBM(r) == LET S == {E(r, x) : x \in Above(r)} IN CHOOSE e \in S : \A y \in S : e <= y
VBM(r) == LET S == {E(r, x) : x \in Below(r)} IN CHOOSE e \in S : \A y \in S : e >= y
EdgeKs(r, e) == {x[2] : x \in {y \in States(r) : E(r, y) = e}}
(* An edge is reported as the states of one k-point where it is reached: every state there within 1E-3 eV of it. *)
EdgeSets(r, e) == {{x \in States(r) : x[2] = k /\ BAbs(E(r, x) - e) < 10} : k \in EdgeKs(r, e)}
Gap(r) == CBM(r) - VBM(r)
Types(r) == LET v == EdgeKs(r, VBM(r))
                c == EdgeKs(r, CBM(r))
            IN (IF v \cap c # {} THEN {1} ELSE {}) \cup (IF Cardinality(v \cup c) > 1 THEN {0} ELSE {})
(* The files judged: something on either side of the Fermi energy, nothing within 1E-4 eV of it, edges further apart  *)
(* than 1E-3 eV and no energy exactly 1E-3 eV from an edge, so that rounding cannot decide anything.                 *)
Clear(r) == /\ Below(r) # {} /\ Above(r) # {} /\ r.raw % 100 # 50
            /\ \A x \in States(r) : BAbs(E(r, x) - EF(r)) >= 2
            /\ LET c == CBM(r)
                   v == VBM(r)
               IN (~ Metal(r)) => (c - v > 12 /\ \A x \in States(r) : BAbs(E(r, x) - c) # 10 /\ BAbs(E(r, x) - v) # 10)
(* Theorems of the model, checked on every generated file. *)
Sane(r) == (~ Metal(r)) => /\ Gap(r) > 0
                           /\ LET v == VBM(r) IN \A s \in 1..Len(r.eig), b \in 1..NB(r) : \A k, l \in 1..NK(r) : (r.eig[s][k][b] <= v) <=> (r.eig[s][l][b] <= v)
                           /\ Types(r) # {}
                           /\ (NK(r) = 1 => Types(r) = {1})
=============================================================================
