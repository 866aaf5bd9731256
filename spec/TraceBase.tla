----------------------------- MODULE TraceBase ----------------------------
(* Reads a recorded trace. Every line is one event of a session; a session  *)
(* starts with a "begin" event. A trace is accepted when every event is a   *)
(* step the specification allows.                                           *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(name) == l <= Len(Trace) /\ E.ev = name /\ l' = l + 1
\* TLC visits one state per event; report how many were explained
Accepted == PrintT(<<"EXPLAINED", TLCGet("stats").diameter - 1, Len(Trace)>>)
===========================================================================
