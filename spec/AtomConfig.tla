------------------------------ MODULE AtomConfig ------------------------------
(***************************************************************************)
(* PWmat's atom.config text, as lines.  A line is                          *)
(*   [k |-> "count", n]            the first line: number of atoms         *)
(*   [k |-> "head", sec]           a section title, any letter case        *)
(*   [k |-> "row", z, v]           a row of a section: species, numbers    *)
(* Units: lattice 1e-4, fractional coordinates 1e-6, moments 1e-2,         *)
(* forces 1e-6, stress 1e-3.  A lattice row may carry stress columns.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Idx(lines, sec) == {i \in 1..Len(lines) : lines[i].k = "head" /\ lines[i].sec = sec}
Has(lines, sec) == Idx(lines, sec) # {}
First(lines, sec) == CHOOSE i \in Idx(lines, sec) : \A j \in Idx(lines, sec) : i <= j
Rows(lines, sec, n) == LET i == First(lines, sec) IN SubSeq(lines, i + 1, i + n)
Count(lines) == lines[1].n
WellFormed(lines) == /\ lines # <<>> /\ lines[1].k = "count" /\ Has(lines, "lattice") /\ Has(lines, "position")
  /\ \A sec \in {"lattice", "position", "force", "magnetic"} : Has(lines, sec) =>
       LET n == IF sec = "lattice" THEN 3 ELSE Count(lines) IN
       /\ First(lines, sec) + n <= Len(lines)
       /\ \A r \in 1..n : Rows(lines, sec, n)[r].k = "row"
(* what a file says *)
ReadLattice(lines) == [r \in 1..3 |-> SubSeq(Rows(lines, "lattice", 3)[r].v, 1, 3)]
ReadStress(lines) == [r \in 1..3 |-> SubSeq(Rows(lines, "lattice", 3)[r].v, 4, 6)]
HasStress(lines) == \A r \in 1..3 : Len(Rows(lines, "lattice", 3)[r].v) = 6
ReadZ(lines) == [r \in 1..Count(lines) |-> Rows(lines, "position", Count(lines))[r].z]
ReadF(lines) == [r \in 1..Count(lines) |-> SubSeq(Rows(lines, "position", Count(lines))[r].v, 1, 3)]
ReadMag(lines) == IF Has(lines, "magnetic") THEN [r \in 1..Count(lines) |-> Rows(lines, "magnetic", Count(lines))[r].v[1]]
                  ELSE [r \in 1..Count(lines) |-> 0]
ReadForce(lines) == IF Has(lines, "force") THEN [r \in 1..Count(lines) |-> SubSeq(Rows(lines, "force", Count(lines))[r].v, 1, 3)]
                    ELSE [r \in 1..Count(lines) |-> <<0, 0, 0>>]
Read(lines) == [lat |-> ReadLattice(lines), z |-> ReadZ(lines), f |-> ReadF(lines)]
(* what a structure [lat, z, f, m] is written as *)
Row(z, v) == [k |-> "row", z |-> z, v |-> v]
Title(sec) == [k |-> "head", sec |-> sec]
WriteLines(s, mag) ==
  <<[k |-> "count", n |-> Len(s.z)], Title("lattice")>> \o [r \in 1..3 |-> Row(0, s.lat[r])]
  \o <<Title("position")>> \o [i \in 1..Len(s.z) |-> Row(s.z[i], s.f[i])]
  \o (IF mag THEN <<Title("magnetic")>> \o [i \in 1..Len(s.z) |-> Row(s.z[i], <<s.m[i]>>)] ELSE <<>>)
Says(lines, s, mag) == WellFormed(lines) /\ Read(lines) = [lat |-> s.lat, z |-> s.z, f |-> s.f] /\ (mag => ReadMag(lines) = s.m)
                       /\ (mag = Has(lines, "magnetic"))
=============================================================================
