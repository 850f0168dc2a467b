------------------------------ MODULE StoreTrace ------------------------------
(* Judges what the real store answered.                                        *)
EXTENDS Store, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i
T == Data[tid].ev
E == T[i]

Init == tid \in 1..Len(Data) /\ i = 1 /\ SInit
Event == CASE E.e = "put" -> Put(E.f, E.st, E.c)
           [] E.e = "rm" -> Remove(E.f)
           [] E.e = "dir" -> Dir(E.ok)
           [] E.e = "begin" -> Begin
           [] E.e = "end" -> EndLoad
           [] E.e = "ask" -> Ask(E.n, E.isp, E.cid)
           [] E.e = "ans" -> Answer(E.n, E.got)
           [] E.e = "hold" -> Hold(E.n, E.got, E.h)
           [] E.e = "held" -> Held(E.h, E.got)
           [] E.e = "spoil" -> Spoil(E.h, E.got)
           [] OTHER -> FALSE                            \* crash, stuck
Next == \/ i <= Len(T) /\ Event /\ i' = i + 1 /\ UNCHANGED tid
        \/ i <= Len(T) /\ Switch /\ UNCHANGED <<i, tid>>
Spec == Init /\ [][Next]_<<svars, tid, i>>

Report == /\ (i > Len(T) => PrintT(<<"DONE", tid>>))
          /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString(<<load, DOMAIN cache, asks>>)))
================================================================================
