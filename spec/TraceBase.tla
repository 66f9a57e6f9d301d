----------------------------- MODULE TraceBase -----------------------------
(* Reading a trace recorded from the real library, one event per line.  A   *)
(* trace specification extends this module, defines one action per kind of  *)
(* event in terms of the actions of the specification proper, and accepts   *)
(* the trace when every line was consumed.  TLC reports the first line that *)
(* no action explains.                                                      *)
EXTENDS Json, IOUtils, TLC, Sequences, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l               \* number of the next line to explain

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Has(r, f) == f \in DOMAIN r

TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN \/ d - 1 = Len(Trace) /\ PrintT(<<"TRACE-ACCEPTED", Len(Trace)>>)
     \/ d - 1 < Len(Trace) /\ PrintT(<<"TRACE-REJECTED", d>>) /\ FALSE
=============================================================================
