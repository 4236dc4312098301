----------------------------- MODULE MovementTrace -----------------------------
EXTENDS VFTrace, Movement
PS == INSTANCE PyStruct
C == INSTANCE Crystal
MInit(t) == t.init
MStep(s, e) == s
Fail(b, name) == IF b THEN {} ELSE {name}
Show(fr, k, o) == /\ o.lat = ReadLattice(fr[k].lines) /\ o.z = ReadZ(fr[k].lines) /\ o.f = ReadF(fr[k].lines)
GridSt(l) == LET L == [r \in 1..3 |-> [c \in 1..3 |-> ReadLattice(l)[r][c] \div 1000]] IN
   [cell |-> C!MScale(4, L), z |-> ReadZ(l), pos |-> [i \in 1..Count(l) |-> C!Comb([c \in 1..3 |-> ReadF(l)[i][c] \div 250000], L)]]
Nbrs(l, e) == LET g == GridSt(l) IN C!SetMax({Cardinality(PS!PyNbrs(g, e.scale, e.rch, i)) : i \in 1..Len(g.pos)})
MFail(fr, e) ==
  LET N == 1..Len(fr) IN
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  CASE e.op = "labels" -> Fail(e.reply = Labels(fr), "the labels name what the trajectory offers")
    [] e.op = "count" -> Fail(e.reply = Len(fr), "every frame is counted")
    [] e.op = "all" -> Fail(Len(e.reply) = Len(Labels(fr)) /\ \A j \in 1..Len(Labels(fr)) : Len(e.reply[j]) = Len(fr) /\ \A k \in N : e.reply[j][k] = Value(fr, k, Labels(fr)[j]),
                            "every frame's quantities, in the order of the labels")
    [] e.op = "frame" -> Fail(e.reply = Info(fr, e.k), "the frame asked for, its quantities in the order of the labels")
    [] e.op = "str" -> Fail(e.k \in {e.reply[i] : i \in 1..Len(e.reply)}, "the text of the frame asked for")
    [] e.op = "m_all" -> Fail(Len(e.reply) = Len(fr) /\ \A k \in N : Show(fr, k, e.reply[k]), "all structures in order")
    [] e.op = "m_info" -> Fail(Len(e.reply) = Len(fr) /\ \A k \in N : Show(fr, k, e.reply[k]), "all structures in order")
                          \cup Fail(e.en = [k \in N |-> fr[k].e], "total, potential and kinetic energy of every frame")
                          \cup Fail(e.vir = (IF OfferStress(fr) THEN [k \in N |-> ReadStress(fr[k].lines)] ELSE <<>>), "the virial of every frame")
    [] e.op = "m_frame" -> Fail(Show(fr, e.k, e.reply), "the structure of the frame asked for")
    [] e.op = "m_energy" -> Fail(e.reply = fr[e.k].e, "total, potential and kinetic energy of the frame asked for")
    [] e.op = "m_virial" -> Fail(e.reply = (IF OfferStress(fr) THEN ReadStress(fr[e.k].lines) ELSE [r \in 1..3 |-> <<0, 0, 0>>]), "the virial of the frame asked for, none meaning zero")
    [] e.op = "m_volume" -> Fail(64 * e.reply = C!Abs(C!Det(GridSt(fr[e.k].lines).cell)), "the volume of the frame asked for")
    [] e.op = "m_nbrs" -> Fail(e.reply = C!SetMax({Nbrs(fr[k].lines, e) : k \in N}), "the largest neighbour count over all frames")
=============================================================================
