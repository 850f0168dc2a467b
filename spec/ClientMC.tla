------------------------------- MODULE ClientMC -------------------------------
(* Small instance of Client.  A packet is <<length, kind, padding ...>>:       *)
(* kind 1 must be answered, 2 is answered and ends the session, 3 is an answer *)
(* itself (never answered), 4 unknown, 5 malformed (ignored, or ends it).      *)
(* BREAK: "segment": a segment's end is taken for a packet's end; "answer":    *)
(* answers are answered; "late": writing after the close; "twice": a packet    *)
(* is handled twice when it is answered.                                       *)
EXTENDS Client, TLC

CONSTANTS STREAMS, THREADS, OPS, BREAK, HIST
VARIABLES todo,         \* of the stream: not yet received
          stream,       \* all of it
          pc, n,        \* threads; operations begun
          asked,        \* a thread closed the session, or its writes broke
          log
mcvars == <<cvars, todo, stream, pc, n, asked, log>>

MCHead == 2
MCMax == 4
MCLen(h) == h[1]
MCReact(c, p) ==
  CASE p[2] = 1 -> {[ans |-> <<p[1]>>, fin |-> FALSE]}
    [] p[2] = 2 -> {[ans |-> <<p[1]>>, fin |-> TRUE]}
    [] p[2] = 3 -> {[ans |-> IF BREAK = "answer" THEN <<p[1]>> ELSE <<>>, fin |-> FALSE]}
    [] p[2] = 5 -> {[ans |-> <<>>, fin |-> FALSE], [ans |-> <<>>, fin |-> TRUE]}
    [] OTHER -> {[ans |-> <<>>, fin |-> FALSE]}

PKTS == {<<2, 1>>, <<3, 1, 0>>, <<2, 2>>, <<3, 3, 2>>, <<2, 4>>, <<4, 5, 2, 1>>, <<1, 1>>, <<9, 1>>}
All == UNION {[1..k -> PKTS] : k \in 0..STREAMS}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

Init == /\ CInit("") /\ stream \in {Cat(s) : s \in All}
        /\ todo = stream /\ pc = [t \in 1..THREADS |-> "idle"] /\ n = 0 /\ asked = FALSE /\ log = <<>>
L(x) == log' = IF HIST THEN Append(log, x) ELSE log

Begin == ph = "none" /\ ph' = "up" /\ UNCHANGED <<cx, fin, inb, eof, brk, outs, todo, stream, pc, n, asked, log>>
Segment == /\ ph # "none" /\ todo # <<>>
           /\ \E k \in 1..Len(todo) :
                /\ IF BREAK = "segment" /\ inb # <<>> THEN inb' = SubSeq(todo, 1, k) /\ UNCHANGED <<cx, ph, fin, eof, brk, outs>> ELSE Feed(SubSeq(todo, 1, k))
                /\ todo' = Rest(todo, k) /\ L("f" \o ToString(k))
           /\ UNCHANGED <<stream, pc, n, asked>>
Away == ph # "none" /\ ~eof /\ n < OPS /\ n' = n + 1 /\ Hangup /\ asked' = TRUE /\ L("h") /\ UNCHANGED <<todo, stream, pc>>
Twice == /\ BREAK = "twice" /\ Open /\ ~fin /\ Complete /\ inb[2] = 1 /\ CanWrite
         /\ outs' = outs \o <<Claimed, Claimed>> /\ inb' = Rest(inb, Claimed) /\ UNCHANGED <<cx, ph, fin, eof, brk>>
Recv == (Receiver \/ Twice) /\ UNCHANGED <<todo, stream, pc, n, asked, log>>
Thread(t) ==
  \/ pc[t] = "idle" /\ ph # "none" /\ n < OPS /\ n' = n + 1
     /\ \/ CloseBegin /\ pc' = [pc EXCEPT ![t] = "closing"] /\ asked' = TRUE /\ L("c")
        \/ pc' = [pc EXCEPT ![t] = "sending"] /\ L("s") /\ UNCHANGED <<cvars, asked>>
     /\ UNCHANGED <<todo, stream>>
  \/ pc[t] = "closing" /\ CloseEnd /\ pc' = [pc EXCEPT ![t] = "closed"] /\ UNCHANGED <<todo, stream, n, asked, log>>
  \/ pc[t] = "closed" /\ n < OPS /\ n' = n + 1 /\ pc' = [pc EXCEPT ![t] = "late"] /\ L("s") /\ UNCHANGED <<cvars, todo, stream, asked>>
  \/ pc[t] = "late" /\ pc' = [pc EXCEPT ![t] = "over"]
     /\ (IF BREAK = "late" THEN outs' = Append(outs, 100) /\ UNCHANGED <<cx, ph, fin, inb, eof, brk>> ELSE (Emit(100) \/ Fail))
     /\ UNCHANGED <<todo, stream, n, asked, log>>
  \/ pc[t] = "sending" /\ (Emit(100) \/ Fail) /\ pc' = [pc EXCEPT ![t] = "idle"]
     /\ asked' = (asked \/ ph' # ph) /\ UNCHANGED <<todo, stream, n, log>>
Next == Begin \/ Segment \/ Away \/ Recv \/ \E t \in 1..THREADS : Thread(t)
Spec == Init /\ [][Next]_mcvars

(* The answers to a stream, whatever its segments: <<answers, over>>.          *)
RECURSIVE Answers(_)
Answers(s) ==
  IF Len(s) < 2 THEN <<>>
  ELSE IF s[1] < 2 \/ s[1] > 4 \/ Len(s) < s[1] THEN <<>>
  ELSE CASE s[2] = 1 -> <<s[1]>> \o Answers(Rest(s, s[1]))
         [] s[2] = 2 -> <<s[1]>>
         [] OTHER -> Answers(Rest(s, s[1]))
RECURSIVE Ends(_)
Ends(s) == IF Len(s) < 2 THEN FALSE ELSE IF s[1] < 2 \/ s[1] > 4 THEN TRUE ELSE IF Len(s) < s[1] THEN FALSE ELSE s[2] = 2 \/ Ends(Rest(s, s[1]))
RECURSIVE Odd(_)
Odd(s) == IF Len(s) < 2 \/ s[1] < 2 \/ s[1] > 4 \/ Len(s) < s[1] THEN FALSE ELSE s[2] = 5 \/ (s[2] # 2 /\ Odd(Rest(s, s[1])))
Mine == SelectSeq(outs, LAMBDA x : x # 100)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Once == Prefix(Mine, Answers(stream))
Exact == (Quiet /\ todo = <<>> /\ ~asked /\ ph # "none" /\ \A t \in DOMAIN pc : pc[t] = "idle") =>
           IF Odd(stream) THEN Prefix(Mine, Answers(stream))
           ELSE Mine = Answers(stream) /\ (ph = "down") = Ends(stream)
Silent == [][ph = "down" => outs' = outs]_mcvars
Returned == \A t \in DOMAIN pc : pc[t] \in {"closed", "late", "over"} => ph = "down"
Show == (HIST /\ todo = <<>> /\ Quiet /\ ph # "none" /\ \A t \in DOMAIN pc : pc[t] \in {"idle", "closed", "over"}) => PrintT("RUN " \o ToString(stream) \o " " \o ToString(log))
================================================================================
