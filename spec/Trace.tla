------------------------------- MODULE Trace -------------------------------
(* Trace validation: the operations executed on the real library, with     *)
(* what it answered, must be a behaviour of AccSet.                        *)
EXTENDS AccSet, Json, IOUtils, Sequences

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == objs = <<>> /\ l = 1
TraceNext == /\ l <= Len(Log)
             /\ Agrees(Log[l]) = TRUE          \* evaluated as a value, not as an action
             /\ Apply(Log[l])
             /\ l' = l + 1
\* the furthest line explained by the specification (branches may die early)
Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
TraceAccepted == IF TLCGet(1) = Len(Log) + 1 THEN TRUE
                 ELSE PrintT("@REJECT " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
