----------------------------- MODULE IdsTrace -------------------------------
(* Judges what the real generators returned.                                 *)
EXTENDS Ids, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i
T == Data[tid].ev
E == T[i]
Rng(s) == {s[k] : k \in 1..Len(s)}

Init == /\ tid \in 1..Len(Data)
        /\ i = 1
        /\ g = Data[tid].g
        /\ low = [p \in Procs |-> None]
        /\ top = Zero
        /\ used = {}

Event == CASE E.e = "call" -> Call(E.p)
           [] E.e = "ret" -> Ret(E.p, E.a, Rng(E.clk))
           [] E.e = "batch" -> Batch(E.runs, Rng(E.clk))
           [] E.e = "all" -> All(E.runs)
           [] OTHER -> FALSE

Next == i <= Len(T) /\ Event /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<ivars, tid, i>>

Report == /\ (i > Len(T) => PrintT(<<"DONE", tid>>))
          /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString(top)))
=============================================================================
