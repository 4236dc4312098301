------------------------------ MODULE VFTrace ------------------------------
(***************************************************************************)
(* The frame of every trace specification: a log of traces, each a         *)
(* sequence of events recorded from the real code.  Every trace is its own *)
(* chain of states (tr, at, st); the extending module supplies             *)
(*   MInit(trace)       the abstract state the trace starts in             *)
(*   MStep(s, e)        the specification's successor state for event e    *)
(*   MFail(s, e)        the names of the clauses event e violates in s     *)
(* A violated clause is reported by name and the chain goes on, so that    *)
(* one violation never hides the rest of the trace.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS TInit(_), TStep(_, _), TFail(_, _)
VARIABLES tr, at, st

Log == ndJsonDeserialize(IOEnv.VF_LOG)
NTraces == Len(Log)
TraceInit == tr \in 1..NTraces /\ at = 0 /\ st = TInit(Log[tr])
TraceNext ==
  /\ at < Len(Log[tr].events)
  /\ LET e == Log[tr].events[at + 1]
         f == TFail(st, e)
     IN  /\ IF f = {} THEN TRUE ELSE PrintT("VFBAD " \o ToJson([id |-> Log[tr].id, at |-> at + 1, clauses |-> f]))
         /\ st' = TStep(st, e)
  /\ at' = at + 1 /\ tr' = tr
TraceDone == LET n == TLCGet("stats").distinct IN PrintT("VFDONE " \o ToString(NTraces) \o " " \o ToString(n))
=============================================================================
