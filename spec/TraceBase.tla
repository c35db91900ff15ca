----------------------------- MODULE TraceBase -----------------------------
(* What all trace specifications share: the recorded events, a cursor, and acceptance. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Rec == ndJsonDeserialize(IOEnv.TRACE)
HasEvent == l <= Len(Rec)
Ev == Rec[l]
Advance == l' = l + 1
(* One state per consumed event plus the initial one. The line TLC got to is printed for the driver of the check. *)
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
    /\ PrintT(<<"TRACE", d - 1, Len(Rec), (d - 1 = Len(Rec))>>)
    /\ d - 1 = Len(Rec)
=============================================================================
