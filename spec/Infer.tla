-------------------------------- MODULE Infer --------------------------------
(***************************************************************************)
(* From a trained model to its use.                                        *)
(* Checkpoints: nets of layers; layer l of net i has a weight matrix, a    *)
(* bias row and perhaps a residual row.  Extraction writes each of them    *)
(* under its name, the widths of the layers and M1, M2 (the descriptor has *)
(* M1 x M2 entries, M1 the last embedding width).                          *)
(* Inference: the model is handed one table row per centre; slot s of the  *)
(* offset table, the environment matrix, its derivative and the list of    *)
(* neighbours are about the same neighbour.                                *)
(***************************************************************************)
EXTENDS EnvMat, TLC
Name(net, i, part, l) == net \o "." \o ToString(i) \o "." \o part \o "." \o (CASE part = "weights" -> "weight" [] part = "bias" -> "bias" [] OTHER -> "resnet_dt") \o ToString(l)
(* a checkpoint c: c.e, c.f = [nets, w (widths of the layers), in (rows of the first weight), res (layers with a residual)]; base: a number from which *)
(* all entries of the checkpoint are counted, so that no two arrays hold the same numbers *)
In(g, l) == IF l = 1 THEN g.in ELSE g.w[l - 1]
Arrays(net, g) == UNION {UNION {{[name |-> Name(net, i - 1, "weights", l - 1), rows |-> In(g, l), cols |-> g.w[l]], [name |-> Name(net, i - 1, "bias", l - 1), rows |-> 1, cols |-> g.w[l]]}
                                \cup (IF l \in g.res THEN {[name |-> Name(net, i - 1, "resnet_dt", l - 1), rows |-> 1, cols |-> g.w[l]]} ELSE {}) : l \in 1..Len(g.w)} : i \in 1..g.nets}
Held(c) == Arrays("embedding_net", c.e) \cup Arrays("fitting_net", c.f)
LegalC(c) == c.e.in = 1 /\ c.f.in % c.e.w[Len(c.e.w)] = 0
M1(c) == c.e.w[Len(c.e.w)]
M2(c) == c.f.in \div M1(c)
(* ---- inference ---- *)
Count(qy, z) == Cardinality({i \in 1..Len(qy.z) : qy.z[i] = z})
Natoms(qy, co) == <<Len(qy.z)>> \o [k \in 1..Len(co) |-> Count(qy, co[k])]
FailBlock(nb, qy, c, e, i, k) ==
  LET at0 == Off(e.sel, k - 1)
      n == Cardinality(nb)
      seen == [s \in 1..n |-> <<e.list[i][at0 + s], e.rc[i][at0 + s]>>]
  IN (IF {seen[s] : s \in 1..n} = nb THEN {} ELSE {"a row names exactly the neighbours of its centre, each with its own offset"})
     \cup (IF \A s \in (n + 1)..e.sel[k] : e.list[i][at0 + s] = 0 /\ e.rc[i][at0 + s] = Zero3 /\ ZeroV(e.r[i][at0 + s]) /\ ZeroD(e.d[i][at0 + s]) THEN {} ELSE {"unused slots are empty in all four tables"})
     \cup (IF \A s \in 1..(n - 1) : Norm2(e.rc[i][at0 + s]) <= Norm2(e.rc[i][at0 + s + 1]) THEN {} ELSE {"neighbours run from near to far"})
     \cup (IF \A s \in 1..n : e.rc[i][at0 + s] = Zero3 \/ ValueOk(e.r[i][at0 + s], e.rc[i][at0 + s], c) THEN {} ELSE {"the normalised row of a slot belongs to the neighbour of that slot"})
     \cup (IF \A s \in 1..n : e.rc[i][at0 + s] = Zero3 \/ SlopeOk(e.d[i][at0 + s], e.rc[i][at0 + s], c, -1) THEN {} ELSE {"the derivatives of a slot belong to the neighbour of that slot"})
FailModel(qy, e) ==
  LET ex == NL!Expected(qy)
      c == [rsh |-> qy.rsh, rch |-> qy.rch]
      rows == OfSpecies(qy.z, e.co)
      w == SumSeq(e.sel)
      full(a) == Len(a) = Len(rows) /\ \A i \in 1..Len(rows) : Len(a[i]) = w
  IN IF e.err # "" THEN {"inference succeeds"} ELSE
     IF ~(full(e.list) /\ full(e.rc) /\ full(e.r) /\ full(e.d)) THEN {"the model is handed one row per centre, one group of slots per neighbour element"} ELSE
     (IF e.natoms = Natoms(qy, e.co) THEN {} ELSE {"the atoms are counted in the order of the centre elements"})
     \cup (IF e.plain THEN {} ELSE {"tables are double precision, of one image, and can be differentiated"})
     \cup UNION {FailBlock({p \in ex[rows[i]] : qy.z[p[1]] = e.co[k]}, qy, c, e, i, k) : i \in 1..Len(rows), k \in 1..Len(e.co)}
=============================================================================
