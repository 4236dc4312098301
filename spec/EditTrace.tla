------------------------------- MODULE EditTrace -------------------------------
EXTENDS VFTrace, Edit
MInit(t) == t.init
MStep(s, e) == [s EXCEPT !.sites = After(s.sites, e)]
Shows(s, sites, obs, mag) == /\ Len(obs) = Len(sites)
   /\ \A i \in 1..Len(sites) : obs[i].z = sites[i].z /\ obs[i].f = sites[i].f /\ (mag => obs[i].m = sites[i].m)
Cart(s, f) == LET v == Comb(f, s.cell) IN <<v[1] \div s.K, v[2] \div s.K, v[3] \div s.K>>
Span(s, k) == LET X == {Cart(s, s.sites[i].f)[k] : i \in 1..Len(s.sites)} IN SetMax(X) - (CHOOSE a \in X : \A b \in X : a <= b)
RECURSIVE SumF(_, _)
SumF(s, i) == IF i = 0 THEN Zero3 ELSE VAdd(SumF(s, i - 1), Cart(s, s.sites[i].f))
SetMaxI(X) == CHOOSE a \in X : \A b \in X : b <= a
SpanI(s, k) == LET X == {Cart(s, s.sites[i].f)[k] : i \in 1..Len(s.sites)} IN SetMaxI(X) - (CHOOSE a \in X : \A b \in X : a <= b)
Room(s, k) == LET t == 10 * s.g + SpanI(s, k) IN Norm2(s.cell[k]) > t * t
Tie(s, k) == LET t == 10 * s.g + SpanI(s, k) IN Norm2(s.cell[k]) = t * t
MFail(s, e) ==
  LET n == After(s.sites, e) IN
  IF e.err # "" THEN {"the operation " \o e.op \o " succeeds"} ELSE
  (IF Shows(s, n, e.obs, s.magmom) THEN {} ELSE {"after " \o e.op \o " every atom kept its element, position and moment, in the right order"})
  \cup (IF e.op # "pick" \/ Shows(s, s.sites, e.old, s.magmom) THEN {} ELSE {"picking elements leaves the source alone"})
  \cup (IF e.op # "natoms" \/ e.reply = Natoms(s.sites, e.order) THEN {} ELSE {"the totals count the atoms in the order asked for"})
  \cup (IF e.op # "index" \/ e.reply = SiteIndex(s.sites, s.K, e.f) THEN {} ELSE {"a position is traced to its atom, modulo the lattice"})
  \cup (IF e.op # "centroid" \/ e.reply = SumF(s, Len(s.sites)) THEN {} ELSE {"the centroid is the mean position"})
  \cup (IF e.op # "vacuum" \/ (Len(e.reply) = 3 /\ \A k \in 1..3 : Tie(s, k) \/ (e.reply[k] = 1) = Room(s, k)) THEN {} ELSE {"vacuum means more than 10 angstrom of room"})
=============================================================================
