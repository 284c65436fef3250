----------------------------- MODULE TraceBase -----------------------------
(* A trace is a sequence of events [op, a, r, s]: the call, its arguments,   *)
(* its results and the projected state after it.  Every trace module says    *)
(* which of them its specification explains, one event per step; a trace is   *)
(* accepted when TLC can explain all of it.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Accepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", d - 1>>) ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
