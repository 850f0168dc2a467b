----------------------------- MODULE EventsTrace ------------------------------
(* Judges histories recorded from the real registry.                           *)
EXTENDS Events, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i
T == Data[tid].ev
E == T[i]

Init == tid \in 1..Len(Data) /\ i = 1 /\ EInit

Event == CASE E.t = "inv" -> Begin(E.id, E.c)
           [] E.t = "run" -> E.id \in DOMAIN ops /\ Run(E.id, E.h, E.a)
           [] E.t = "ret" -> E.id \in DOMAIN ops /\ End(E.id, E.r)
           [] E.t = "poll" -> Poll(E.id, E.r)
           [] OTHER -> FALSE                            \* crash
Next == \/ i <= Len(T) /\ Event /\ i' = i + 1 /\ UNCHANGED tid
        \/ i <= Len(T) /\ Silent /\ UNCHANGED <<i, tid>>
Spec == Init /\ [][Next]_<<evars, tid, i>>

Report == /\ (i > Len(T) => PrintT(<<"DONE", tid>>))
          /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString(reg)))
================================================================================
