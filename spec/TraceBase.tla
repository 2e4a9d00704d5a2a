----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Machinery shared by all trace specifications.  A trace is a file of     *)
(* JSON lines, one per observed operation of the real library; the file    *)
(* name is in the environment variable TRACE.  A trace specification's     *)
(* next-state relation consumes the lines in order, each by the action     *)
(* with the line's name; the trace is a behaviour of the specification iff *)
(* all lines are consumed.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l   \* the line to be consumed next

TraceInit == l = 1
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

(* c, with a diagnostic when it is false *)
Chk(label, c) == IF c THEN TRUE ELSE PrintT("REJECT " \o ToString(<<l, label>>)) /\ FALSE

Accepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d - 1 = Len(Trace)
      THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
      ELSE PrintT(<<"REJECTED", d, Len(Trace)>>) /\ FALSE
=============================================================================
