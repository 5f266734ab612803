----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  The file named by the TRACE   *)
(* environment variable has one recorded history of the implementation per *)
(* line: [cfg |-> ..., ev |-> << events >>].  TLC starts one behaviour per *)
(* history and has to match every event with an action of the component's  *)
(* specification; an event that no action allows leaves TLC in a deadlock, *)
(* which is how a rejected history is reported.                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tid]
Ev == T.ev[l]
TraceStart == tid \in 1..Len(Traces) /\ l = 1
Is(name) == /\ l <= Len(T.ev)
            /\ Ev.op = name
            /\ l' = l + 1
            /\ UNCHANGED tid
TraceDone == l > Len(T.ev) /\ UNCHANGED <<tid, l>>
=============================================================================
