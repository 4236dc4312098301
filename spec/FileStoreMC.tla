----------------------------- MODULE FileStoreMC -----------------------------
EXTENDS FileStore, TLC, Json
CONSTANTS Mode, Depth, Versions, Getters
VARIABLES s, hist
R(S) == RandomElement(S)
P(S) == IF Mode = "all" THEN S ELSE {R(S)}
Ev(op, d, v, i) == [op |-> op, d |-> d, v |-> v, slot |-> i, get |-> R(Getters)]
Init == s = Store0(1, 2) /\ hist = <<>>
Do(t, e) == s' = t /\ hist' = Append(hist, e)
Ready(sl) == s.readers[sl].dir # 0
WriteF == \E d \in P(Dirs), v \in P(Versions) : v # s.content[d] /\ Do(Write(s, d, v), Ev("write", d, v, 1))
Cd == Do(Chdir(s, 3 - s.cwd), Ev("chdir", 3 - s.cwd, 0, 1))
ReadRel == Do(s, Ev("rel", s.cwd, 0, 1))
ReadAbs == \E d \in P(Dirs) : Do(s, Ev("abs", d, 0, 1))
OpenR == \E i \in (IF Mode = "all" THEN {1} ELSE {R(Slots)}), d \in P(Dirs) : Do(Open(s, i, d), Ev("open", d, 0, i))
AskR == \E i \in (IF Mode = "all" THEN {1} ELSE {R(Slots)}) : Ready(i) /\ Do(s, Ev("ask", s.readers[i].dir, 0, i))
More == Len(hist) < Depth
Stop == Len(hist) = Depth /\ hist' = Append(hist, Ev("end", 1, 0, 1)) /\ s' = s
Next == (More /\ (WriteF \/ Cd \/ ReadRel \/ ReadAbs \/ OpenR \/ AskR)) \/ Stop
Theorems == \A i \in Slots : Ready(i) => Fresh(s, s.readers[i].dir) \subseteq Kept(s, i)
Reads == {"rel", "abs", "ask"}
PrintCase == (Len(hist) = Depth + 1 /\ hist[Depth].op \in Reads /\ \E k \in 1..(Depth - 1) : hist[k].op \in {"write", "chdir"}) =>
                PrintT("VFCASE " \o ToJson([hist |-> SubSeq(hist, 1, Depth)]))
=============================================================================
