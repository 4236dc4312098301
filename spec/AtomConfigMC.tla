----------------------------- MODULE AtomConfigMC -----------------------------
(* Sessions on two files: structures are written, files are rewritten from outside, and read in every way. *)
EXTENDS AtomConfig, TLC, Json
CONSTANTS Mode, MaxSites, Depth, Paths
VARIABLES store, hist, done
R(S) == RandomElement(S)
RF(i) == LET k == R(1..8) IN IF k = 1 THEN 0 ELSE IF k = 2 THEN 999999 ELSE IF k = 3 THEN 1000000 ELSE IF k = 4 THEN -1 ELSE R(-2000000..3000000)
RL(i) == LET k == R(1..5) IN IF k = 1 THEN 0 ELSE R(-29999..29999)
RZ(i) == LET k == R(1..3) IN IF k = 1 THEN R({1, 8, 16, 14, 34, 72, 80, 42}) ELSE R(1..118)
RStruct(n) == [lat |-> << <<R(60000..999999), RL(n), RL(n)>>, <<RL(n), R(60000..999999), RL(n)>>, <<RL(n), RL(n), R({-1, 1, 1}) * R(60000..999999)>> >>,
               z |-> [i \in 1..n |-> IF R(1..30) = 1 THEN 0 ELSE RZ(i)], f |-> [i \in 1..n |-> <<RF(i), RF(i), RF(i)>>], m |-> [i \in 1..n |-> R(-999..999)]]
SmallStructs == { [lat |-> << <<100000, 0, 0>>, <<-5000, 123456, 0>>, <<0, 7, 200000>> >>, z |-> SubSeq(z, 1, n), f |-> SubSeq(f, 1, n), m |-> SubSeq(<<150, -25, 0>>, 1, n)]
    : n \in 1..2, z \in {<<1, 118>>, <<72, 0>>}, f \in {<< <<0, 500000, -250000>>, <<999999, 1000000, 1>> >>} }
Structs(i) == IF Mode = "all" THEN SmallStructs ELSE {RStruct(R(1..MaxSites))}
NoVac(lines) == \A i \in 1..Count(lines) : ReadZ(lines)[i] # 0
(* texts from outside: optional stress, forces, moments; forces or moments first *)
Doc(s, stress, force, mag, swap) ==
  LET n == Len(s.z)
      fr == <<Title("force")>> \o [i \in 1..n |-> Row(s.z[i], <<-s.f[i][1], s.f[i][2] \div 2, i>>)]
      mg == <<Title("magnetic")>> \o [i \in 1..n |-> Row(s.z[i], <<s.m[i]>>)]
      a == IF force THEN fr ELSE <<>>
      b == IF mag THEN mg ELSE <<>>
  IN <<[k |-> "count", n |-> n], Title("lattice")>> \o [r \in 1..3 |-> Row(0, s.lat[r] \o (IF stress THEN <<r * 1001, -r, 0>> ELSE <<>>))]
     \o <<Title("position")>> \o [i \in 1..n |-> Row(s.z[i], s.f[i])] \o (IF swap THEN b \o a ELSE a \o b)
B(i) == IF Mode = "all" THEN BOOLEAN ELSE {R(BOOLEAN)}
Init == store = [p \in Paths |-> <<>>] /\ hist = <<>> /\ done = FALSE
Put(p, lines, op) == store' = [store EXCEPT ![p] = lines] /\ hist' = Append(hist, op)
Write == \E p \in Paths, s \in Structs(1), mag \in B(1) : Put(p, WriteLines(s, mag), [op |-> "write", p |-> p, s |-> s, mag |-> mag])
External == \E p \in Paths, s \in Structs(1), st \in B(1), fo \in B(2), mg \in B(3), sw \in B(4) :
              LET d == Doc(s, st, fo, mg, sw) IN Put(p, d, [op |-> "put", p |-> p, lines |-> d])
Hows(lines) == {"extractor", "text"} \cup (IF NoVac(lines) THEN {"structure", "structure_text"} ELSE {})
ReadBack == \E p \in Paths : store[p] # <<>> /\ \E h \in (IF Mode = "all" THEN Hows(store[p]) ELSE {R(Hows(store[p]))}) :
              hist' = Append(hist, [op |-> "read", p |-> p, how |-> h]) /\ UNCHANGED store
Copy == Mode = "random" /\ \E p, q \in Paths : p # q /\ store[p] # <<>> /\ NoVac(store[p])
              /\ Put(q, WriteLines([lat |-> ReadLattice(store[p]), z |-> ReadZ(store[p]), f |-> ReadF(store[p]), m |-> ReadMag(store[p])], FALSE), [op |-> "copy", p |-> p, q |-> q])
Poscar == Mode = "random" /\ \E p \in Paths : store[p] # <<>> /\ NoVac(store[p]) /\ ReadLattice(store[p])[3][3] > 0 /\ hist' = Append(hist, [op |-> "poscar", p |-> p]) /\ UNCHANGED store
Next == ~done /\ (IF Len(hist) = Depth THEN done' = TRUE /\ UNCHANGED <<store, hist>> ELSE done' = FALSE /\ (Write \/ External \/ ReadBack \/ Copy \/ Poscar))
(* reading back what was written gives the structure; a text says what it was made of *)
RoundTrip == \A i \in 1..Len(hist) : hist[i].op = "write" => Says(WriteLines(hist[i].s, hist[i].mag), hist[i].s, hist[i].mag)
Formed == \A p \in Paths : store[p] = <<>> \/ WellFormed(store[p])
PrintCase == done => PrintT("VFCASE " \o ToJson(hist))
=============================================================================
