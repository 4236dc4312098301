---------------------------- MODULE SupercellTrace ----------------------------
EXTENDS VFTrace, Supercell
MInit(x) == 0
MStep(s, e) == s + 1
MFail(s, e) == IF e.op = "super" THEN FailSuper(e) ELSE FailCounts(e)
=============================================================================
