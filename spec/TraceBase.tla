------------------------------ MODULE TraceBase ------------------------------
(* Walks over the records of a trace file: K chains, so that TLC's workers    *)
(* share the work.  A module extending it defines Verdict(record) = "" when   *)
(* the record is what the specification allows.                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
K == 128
VARIABLE pos
Init == pos \in (1 - K)..0          \* not started yet
Next == pos + K <= N /\ pos' = pos + K
Report(v) == pos < 1 \/ v = "" \/ PrintT("BAD " \o ToString(pos) \o " " \o v)
=============================================================================
