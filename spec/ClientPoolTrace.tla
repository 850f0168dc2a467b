---------------------------- MODULE ClientPoolTrace ---------------------------
(* Judges what the real client did with gateways played by the driver.         *)
EXTENDS ClientPool, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i
D == Data[tid]
E == D.ev[i]

Conf(d) == [d.cx EXCEPT !.match = [p \in DOMAIN d.cx.match |-> Range(d.cx.match[p])]]
Init == tid \in 1..Len(Data) /\ i = 1 /\ PInit(Conf(Data[tid]), 1000, Data[tid].mode)

Event ==
  CASE E.e = "conn" -> Dial(E.op, E.ok)
    [] E.e = "refused" -> Refused(E.op)
    [] E.e = "gone" -> Gone(E.c)
    [] E.e = "down" -> Down(E.c)
    [] E.e = "mode" -> Mode(E.op, E.m)
    [] E.e = "word" -> Word(E.c)
    [] E.e = "beat" -> Beat(E.c)
    [] E.e = "call" -> E.s = Len(sends) + 1 /\ Call(E.ph, E.n)
    [] E.e = "sub" -> E.to \in DOMAIN cx.match /\ Part(E.c, E.key, E.to)
    [] E.e = "back" -> Back(E.s, E.qid)
    [] E.e = "ans" -> Answer(E.key, E.res, E.mid)
    [] E.e = "rpt" -> Report(E.mid, E.rep)
    [] E.e = "query" -> Query(E.qid, E.got)
    [] E.e = "batch" -> Batch(E.got)
    [] E.e = "shut" -> Shutdown
    [] E.e = "at" -> UNCHANGED pvars
    [] E.e = "end" -> Due /\ Empty(E.seqs, E.mids)
    [] OTHER -> FALSE                               \* crash, garbage
Next == /\ i <= Len(D.ev)
        /\ IF "t" \in DOMAIN E /\ E.t > now THEN Advance(E.t) /\ UNCHANGED <<tid, i>>
           ELSE Event /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_<<pvars, tid, i>>
Report_ == /\ (i > Len(D.ev) => PrintT(<<"DONE", tid>>))
           /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString([now |-> now, oper |-> oper, conns |-> [c \in 1..Len(conns) |-> <<conns[c].op, conns[c].st>>], calls |-> Len(sends)])))
================================================================================
