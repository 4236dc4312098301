------------------------------- MODULE Movement -------------------------------
(***************************************************************************)
(* A MOVEMENT file: a sequence of frames, each an atom.config text whose   *)
(* first line also carries the energies, closed by a separator line.       *)
(* A frame here is [e |-> <<etot, ep, ek>>, lines |-> AtomConfig lines];    *)
(* which optional quantities a trajectory offers is decided by frame 1.     *)
(***************************************************************************)
EXTENDS AtomConfig
ReadEatom(lines) == [r \in 1..Count(lines) |-> Rows(lines, "energy", Count(lines))[r].v[1]]
OfferStress(fr) == HasStress(fr[1].lines)
OfferEatom(fr) == Has(fr[1].lines, "energy")
OfferMag(fr) == Has(fr[1].lines, "magnetic")
Labels(fr) == <<"box", "types", "coords", "etot", "fatoms">> \o (IF OfferStress(fr) THEN <<"virial">> ELSE <<>>)
              \o (IF OfferEatom(fr) THEN <<"eatoms">> ELSE <<>>) \o (IF OfferMag(fr) THEN <<"magmoms">> ELSE <<>>)
Flat3(s) == [i \in 1..(3 * Len(s)) |-> s[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]
(* the value a label stands for in frame k *)
Value(fr, k, lab) == LET l == fr[k].lines IN
  CASE lab = "box" -> Flat3(ReadLattice(l))
    [] lab = "types" -> ReadZ(l)
    [] lab = "coords" -> Flat3(ReadF(l))
    [] lab = "etot" -> <<fr[k].e[1]>>
    [] lab = "fatoms" -> Flat3(ReadForce(l))
    [] lab = "virial" -> Flat3(ReadStress(l))
    [] lab = "eatoms" -> ReadEatom(l)
    [] lab = "magmoms" -> ReadMag(l)
Info(fr, k) == [j \in 1..Len(Labels(fr)) |-> Value(fr, k, Labels(fr)[j])]
Homogeneous(fr) == \A k \in 1..Len(fr) : Count(fr[k].lines) = Count(fr[1].lines)
    /\ HasStress(fr[k].lines) = HasStress(fr[1].lines) /\ \A s \in {"energy", "magnetic"} : Has(fr[k].lines, s) = Has(fr[1].lines, s)
Struct(fr, k) == Read(fr[k].lines)
(* on the grid: lattice in tenths of an angstrom, positions in quarters of the cell *)
OnGrid(fr) == \A k \in 1..Len(fr) : LET l == fr[k].lines IN (\A r, c \in 1..3 : ReadLattice(l)[r][c] % 1000 = 0) /\ (\A i \in 1..Count(l) : \A c \in 1..3 : ReadF(l)[i][c] % 250000 = 0)
=============================================================================
