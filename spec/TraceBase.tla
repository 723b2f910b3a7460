----------------------------- MODULE TraceBase -----------------------------
(* A trace recorded from the real code: a sequence of events, read from the file the environment names. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* the position in the trace

\* the state is a function of the position wherever every event has one successor at most (VIEW: cheaper fingerprints)
Position == l

\* every event was allowed: one state an event and the initial one
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1>>) /\ FALSE)
=============================================================================
