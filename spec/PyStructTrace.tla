---------------------------- MODULE PyStructTrace ----------------------------
EXTENDS VFTrace, PyStruct
MInit(t) == t.init
MStep(s, e) == s
MFail(s, e) == CASE e.op = "nbr" -> FailPyNbr(s, e)
                 [] e.op = "super" -> FailPySuper(s, e)
                 [] e.op = "count" -> FailPyCount(s, e)
                 [] e.op = "idx" -> FailPyIdx(s, e)
                 [] e.op = "adj" -> FailPyAdj(s, e)
                 [] OTHER -> {"machinery: unknown event"}
=============================================================================
