------------------------------- MODULE DataSet -------------------------------
(***************************************************************************)
(* Training data from trajectories.  An information set holds, per frame,   *)
(* the quantities of Movement, with species replaced by 0-based indices     *)
(* into an element list; it is exported in consecutive parts.  Several      *)
(* files are merged by composition over one common element list.           *)
(***************************************************************************)
EXTENDS Movement
RECURSIVE AscZ(_)
AscZ(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE x \in S : \A y \in S : x <= y IN <<z>> \o AscZ(S \ {z})
ZSet(fr) == {ReadZ(fr[1].lines)[i] : i \in 1..Count(fr[1].lines)}
Own(fr) == AscZ(ZSet(fr))
CountOfZ(fr, z) == Cardinality({i \in 1..Count(fr[1].lines) : ReadZ(fr[1].lines)[i] = z})
Comp(fr, els) == [j \in 1..Len(els) |-> <<els[j], CountOfZ(fr, els[j])>>]
Pos(els, z) == (CHOOSE j \in 1..Len(els) : els[j] = z) - 1
(* frame k as one record, over the quantities named in labs *)
FrameRec(fr, k, els, labs) == [l \in labs |-> IF l = "types" THEN [i \in 1..Count(fr[k].lines) |-> Pos(els, ReadZ(fr[k].lines)[i])] ELSE Value(fr, k, l)]
LabSet(fr) == {Labels(fr)[j] : j \in 1..Len(Labels(fr))}
(* part p of an export of n frames in parts of ps (0: one part): frames PartFrom .. PartTo *)
NParts(n, ps) == IF ps = 0 THEN 1 ELSE (n + ps - 1) \div ps
PartFrom(n, ps, p) == IF ps = 0 THEN 1 ELSE (p - 1) * ps + 1
PartTo(n, ps, p) == IF ps = 0 THEN n ELSE IF p * ps < n THEN p * ps ELSE n
(* the parts are consecutive, cover every frame once, and only the last may be short *)
PartsOk(n, ps) == /\ PartFrom(n, ps, 1) = 1 /\ PartTo(n, ps, NParts(n, ps)) = n
  /\ \A p \in 1..NParts(n, ps) : PartFrom(n, ps, p) <= PartTo(n, ps, p)
        /\ (p > 1 => PartFrom(n, ps, p) = PartTo(n, ps, p - 1) + 1)
        /\ (ps > 0 /\ p < NParts(n, ps) => PartTo(n, ps, p) - PartFrom(n, ps, p) + 1 = ps)
(* merging: files of one composition belong together *)
Mult(fr) == [z \in ZSet(fr) |-> CountOfZ(fr, z)]
Groups(files) == {{f \in 1..Len(files) : Mult(files[f]) = Mult(files[g])} : g \in 1..Len(files)}
AllZ(files) == UNION {ZSet(files[f]) : f \in 1..Len(files)}
GroupLabs(files, G) == {l \in {"box", "types", "coords", "etot", "fatoms", "virial", "eatoms", "magmoms"} : \A f \in G : l \in LabSet(files[f])}
(* all is, from frame at on, the frames of the files G in some order of the files *)
RECURSIVE FileByFile(_, _, _, _, _, _)
FileByFile(all, at1, files, G, els, labs) == IF G = {} THEN at1 = Len(all) + 1 ELSE
  \E f \in G : /\ at1 + Len(files[f]) - 1 <= Len(all)
               /\ \A k \in 1..Len(files[f]) : all[at1 + k - 1] = FrameRec(files[f], k, els, labs)
               /\ FileByFile(all, at1 + Len(files[f]), files, G \ {f}, els, labs)
RECURSIVE SumLens(_, _)
SumLens(files, G) == IF G = {} THEN 0 ELSE LET g == CHOOSE x \in G : TRUE IN Len(files[g]) + SumLens(files, G \ {g})
=============================================================================
