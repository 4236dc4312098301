--------------------------- MODULE MtpTemplateTrace ---------------------------
(* What the template reader answered: op "read" a written file, op "cut" the same file cut at a byte, op "part" a stretch of a      *)
(* shipped template's list against the file, op "program" the whole of a shipped template.                                        *)
EXTENDS VFTrace, MtpTemplate
MInit(x) == 0
MStep(s, e) == s + 1
Same(p, c) == /\ p.nm = c.nm /\ p.nb = Len(c.basic) /\ p.basic = c.basic /\ p.nt = Len(c.times) /\ p.times = c.times /\ p.ns = Len(c.map) /\ p.map = c.map
MFail(s, e) ==
  CASE e.op = "read" -> IF Notices(e.c, e.d) = 0
                          THEN IF e.err # "" THEN {"a template file is read"} ELSE IF Same(e.p, e.c) THEN {} ELSE {"the reader holds what the file says"}
                          ELSE IF e.err = "MtpException" THEN {} ELSE {"a damaged file raises MtpException"}
    [] e.op = "cut" -> IF e.err = "MtpException" THEN {} ELSE {"a file cut short raises MtpException"}
    [] e.op = "part" -> IF e.err # "" THEN {"a shipped template is read"} ELSE IF e.have = e.want THEN {} ELSE {"the reader holds what the shipped template says"}
    [] e.op = "program" -> IF e.err # "" THEN {"a shipped template is read"} ELSE
          (IF Names(e.c) THEN {} ELSE {"a shipped template names each moment once"})
          \cup (IF Runs(e.c) THEN {} ELSE {"a shipped template uses a moment only when it is complete"})
=============================================================================
