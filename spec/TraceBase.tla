----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a file of JSON     *)
(* lines written by a driver: cases one after the other, each starting     *)
(* with a Case line and ending with an Exit line (how the process of the   *)
(* case ended and what it was performing).                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l       \* the next line of the trace

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

\* A case that ran to its end
CleanExit == Ev.code = 0 /\ Ev.sig = 0 /\ Ev.op.e = "End"

\* The trace is accepted when every line was consumed
Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d = Len(Trace) + 1 THEN TRUE
     ELSE Print(<<"REJECTED-LINE", d>>, FALSE)
=============================================================================
