----------------------------- MODULE DataSetTrace -----------------------------
EXTENDS VFTrace, DataSet
MInit(t) == t.init
MStep(s, e) == s
Fail(b, name) == IF b THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in 1..Len(s)}
(* observed frames: a sequence of records over the observed labels *)
ObsFrames(o, labs) == [k \in 1..Len(o.box) |-> [l \in labs |-> o[l][k]]]
SameLen(o, labs, n) == \A l \in labs : Len(o[l]) = n
FailLoad(fr, o, els) ==
  LET labs == LabSet(fr) n == Len(fr) IN
  Fail(SetOf(o.labs) = labs, "an information set offers what the trajectory offers") \cup
  (IF SetOf(o.labs) # labs THEN {} ELSE
   Fail(SameLen(o.data, labs, n) /\ o.n = n, "one entry per frame") \cup
   (IF ~SameLen(o.data, labs, n) THEN {} ELSE Fail(ObsFrames(o.data, labs) = [k \in 1..n |-> FrameRec(fr, k, els, labs)], "every frame's quantities, species as indices"))) \cup
  Fail(o.comp = Comp(fr, els) /\ o.formula = o.comp, "the composition is that of the trajectory")
FailParts(e, frs, labs, ps, n) ==
  Fail(Len(e.parts) = NParts(n, ps) /\ \A p \in 1..Len(e.parts) : e.parts[p].rank = p - 1, "the number of parts") \cup
  (IF Len(e.parts) # NParts(n, ps) THEN {} ELSE
   Fail(\A p \in 1..Len(e.parts) : SetOf(e.parts[p].labs) = labs, "every part holds every quantity") \cup
   (IF ~(\A p \in 1..Len(e.parts) : SetOf(e.parts[p].labs) = labs) THEN {} ELSE
    Fail(\A p \in 1..Len(e.parts) : LET a == PartFrom(n, ps, p) b == PartTo(n, ps, p) IN
           SameLen(e.parts[p].data, labs, b - a + 1) /\ ObsFrames(e.parts[p].data, labs) = [k \in 1..(b - a + 1) |-> frs[a + k - 1]],
         "the parts hold the frames in order, each once")))
MFail(s, e) ==
  IF e.op = "again" THEN Fail(e.err # "" /\ e.same, "an existing export is refused and left alone") ELSE
  IF e.err # "" THEN {e.op \o " succeeds"} ELSE
  CASE e.op = "load" -> FailLoad(s.files[1], e, IF s.els = <<>> THEN Own(s.files[1]) ELSE s.els)
    [] e.op = "save" -> LET fr == s.files[1] els == IF s.els = <<>> THEN Own(fr) ELSE s.els labs == LabSet(fr) IN
         FailParts(e, [k \in 1..Len(fr) |-> FrameRec(fr, k, els, labs)], labs, s.ps, Len(fr)) \cup
         Fail(e.map = els, "the element list is exported in index order") \cup Fail(e.dirs = 1, "one directory per composition")
    [] e.op = "merge" ->
         Fail(SetOf(e.els) = AllZ(s.files) /\ Len(e.els) = Cardinality(AllZ(s.files)), "one element list, every element once") \cup
         Fail(e.total = SumLens(s.files, 1..Len(s.files)), "the total counts every frame") \cup
         (IF SetOf(e.els) # AllZ(s.files) \/ Len(e.sets) # Cardinality(Groups(s.files)) THEN {"one information set per composition"} ELSE
          UNION { LET G == CHOOSE g \in Groups(s.files) : (\E f \in g : Comp(s.files[f], e.els) = e.sets[q].formula) \/ ~(\E h \in Groups(s.files) : \E f \in h : Comp(s.files[f], e.els) = e.sets[q].formula)
                      labs == GroupLabs(s.files, G)
                      o == e.sets[q]
                      n == SumLens(s.files, G)
                  IN Fail(o.comp = o.formula /\ \E f \in G : o.comp = Comp(s.files[f], e.els), "a merged set reports its own composition") \cup
                     Fail(\A r \in 1..Len(e.sets) : r # q => e.sets[r].formula # o.formula, "one information set per composition") \cup
                     Fail(SetOf(o.labs) = labs, "a merged set offers what all of its files offer") \cup
                     (IF SetOf(o.labs) # labs THEN {} ELSE
                      Fail(o.n = n /\ SameLen(o.data, labs, n) /\ FileByFile(ObsFrames(o.data, labs), 1, s.files, G, e.els, labs), "a merged set holds all frames of its files, file by file"))
                  : q \in 1..Len(e.sets) })
    [] e.op = "mergesave" ->
         Fail(e.dirs = Len(e.sets), "one directory per composition") \cup
         UNION { LET o == e.sets[q] labs == SetOf(o.labs) IN
                 IF ~SameLen(o.data, labs, o.n) THEN {} ELSE
                 FailParts([parts |-> e.parts[q]], ObsFrames(o.data, labs), labs, s.ps, o.n) \cup Fail(e.maps[q] = e.els, "the element list is exported in index order")
               : q \in 1..Len(e.sets) }
=============================================================================
