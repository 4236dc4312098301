---------------------------- MODULE MtpLevelTrace ----------------------------
(* What the enumeration answered, call by call. *)
EXTENDS VFTrace, MtpLevel
MInit(x) == 0
MStep(s, e) == s + 1
Bag3(c) == Canon([i \in 1..Len(c) |-> <<c[i][1], c[i][2]>>])
Bags(cs) == {Bag3(cs[i]) : i \in 1..Len(cs)}
LevelsOk(cs) == \A i \in 1..Len(cs) : \A k \in 1..Len(cs[i]) : cs[i][k][3] = Lev(cs[i][k])
DownOk(cs) == \A i \in 1..Len(cs) : \A k \in 1..(Len(cs[i]) - 1) : cs[i][k][2] >= cs[i][k + 1][2]
Common(cs) == (IF LevelsOk(cs) THEN {} ELSE {"a pair's level is 2 + 4 mu + nu"}) \cup (IF DownOk(cs) THEN {} ELSE {"the pairs of a combination run from high to low rank"})
FailSchemes(e) == Common(e.combs)
   \cup (IF Schemes(e.level) \subseteq Bags(e.combs) THEN {} ELSE {"every combination of the level is listed"})
   \cup (IF Bags(e.combs) \subseteq Schemes(e.level) THEN {} ELSE {"only combinations of the level are listed"})
FailCombs(e) == LET b == Bags(e.combs)
                    x == Basis(e.level) IN Common(e.combs)
   \cup (IF x \subseteq b THEN {} ELSE {"every contractible combination up to the level is in the basis"})
   \cup (IF b \subseteq x THEN {} ELSE {"only contractible combinations up to the level are in the basis"})
   \cup (IF Cardinality(b) = Len(e.combs) THEN {} ELSE {"no combination is in the basis twice"})
   \cup (IF e.size = Len(e.combs) /\ e.max = e.level THEN {} ELSE {"size and max_level describe the basis"})
   \cup (IF e.level < 2 \/ (e.nmus = Cardinality(Mus(e.level)) /\ e.nmusc = e.nmus) THEN {} ELSE {"nmus counts the radial indices in use"})
FailFilter(e) == LET want == SelectSeq(e.list, Scalar) IN
   Common(e.combs) \cup (IF [i \in 1..Len(e.combs) |-> [k \in 1..Len(e.combs[i]) |-> <<e.combs[i][k][1], e.combs[i][k][2]>>]] = want THEN {} ELSE {"the contraction keeps exactly the combinations that reduce to a scalar"})
MFail(s, e) == IF e.err # "" THEN {"the call answers"} ELSE
   CASE e.op = "schemes" -> FailSchemes(e) [] e.op = "combs" -> FailCombs(e) [] e.op = "filter" -> FailFilter(e)
=============================================================================
