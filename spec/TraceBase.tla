---------------------------- MODULE TraceBase ----------------------------
(* Reading a recorded trace: Trace is the sequence of events, l the next one to explain. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
More == l <= Len(Trace)
ev == Trace[l]
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
Has(f) == f \in DOMAIN ev
=============================================================================
