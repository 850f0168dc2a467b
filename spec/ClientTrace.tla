------------------------------ MODULE ClientTrace -----------------------------
(* Judges what real client sessions did: the login, then events, each of them  *)
(* some operations by one or several threads at once followed by a pause long  *)
(* enough for everything to happen.                                            *)
EXTENDS Client, Codec, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i, run, pc, idle
tvars == <<tid, i, run, pc, idle>>
D == Data[tid]
E == D.ev[i]

--------------------------------------------------------------------------------
(* Packets.                                                                    *)
TLen(h) == Num(SubSeq(h, 1, 4))
P(d) == [k |-> "pkt", to |-> "", d |-> d]
Pkt(c, kind, seq, r) == LET b == Enc(Layout(c.isp, kind, c.ver), r) IN P(BE(Len(b) + 12, 4) \o Cmd(c.isp, kind) \o seq \o b)
Heartbeat(c) == IF c.isp = "cmpp" THEN "active_test" ELSE "active_test"
Goodbye(c) == CASE c.isp = "cmpp" -> "terminate" [] c.isp = "smgp" -> "exit" [] OTHER -> "unbind"
Hello(c) == CASE c.isp = "cmpp" -> "connect" [] c.isp = "smgp" -> "login" [] OTHER -> "bind"
KindOf(c, cmd) == LET k == {x \in Kinds(c.isp) : Cmd(c.isp, x) = cmd} IN IF k = {} THEN "" ELSE CHOOSE x \in k : TRUE
Zero(s) == \A k \in 1..Len(s) : s[k] = 0

(* Whether what a deliver carries is a text or a report.                       *)
RECURSIVE Gb(_)
Gb(b) == CASE b = <<>> -> TRUE
           [] Head(b) < 128 -> Gb(Tail(b))
           [] Len(b) < 2 \/ Head(b) < 129 \/ Head(b) > 254 -> FALSE
           [] b[2] >= 64 /\ b[2] <= 254 /\ b[2] # 127 -> Gb(Drop(b, 2))
           [] Len(b) < 4 -> FALSE
           [] OTHER -> b[2] >= 48 /\ b[2] <= 57 /\ b[3] >= 129 /\ b[3] <= 254 /\ b[4] >= 48 /\ b[4] <= 57 /\ Gb(Drop(b, 4))
Labelled(b) == LET d == Dec(SmgpReport, b) IN d.st # "err" /\ \A l \in DOMAIN SmgpLabels : d.r[l] = SmgpLabels[l]
Readable(c, r) ==
  CASE c.isp = "sgip" -> TRUE
    [] r.IsReport = <<1>> -> IF c.isp = "cmpp" THEN Len(r.MsgContent) >= 60 ELSE Len(r.MsgContent) >= 122 /\ Labelled(SubSeq(r.MsgContent, 1, 122))
    [] c.isp = "cmpp" -> r.MsgFmt # <<8>> \/ FromUcs2(r.MsgContent).ok
    [] OTHER -> Gb(r.MsgContent)

No == [ans |-> <<>>, fin |-> FALSE]
End == [ans |-> <<>>, fin |-> TRUE]
Ans(p, f) == [ans |-> <<p>>, fin |-> f]
TReact(c, p) ==
  LET kind == KindOf(c, SubSeq(p, 5, 8))
      seq == SubSeq(p, 9, 12)
      b == Drop(p, 12)
      d == Dec(Layout(c.isp, kind, c.ver), b)
      st == IF kind = "" THEN "" ELSE IF kind = "deliver" /\ d.st = "ok" /\ ~Readable(c, d.r) THEN "lax" ELSE d.st
      (* the answer carries the rest of an SGIP sequence number in its body *)
      with(r) == IF c.isp = "sgip" THEN ("Seq23" :> d.r.Seq23) @@ r ELSE r
      bye == Pkt(c, RespOf(Goodbye(c)), seq, with(<<>>))
      beat == Pkt(c, "active_test_resp", seq, [Reserve |-> <<>>])
      got == Pkt(c, "deliver_resp", seq, with(IF c.isp = "cmpp" THEN [MsgId |-> d.r.MsgId, Result |-> Zeros(IF Major3(c.ver) THEN 4 ELSE 1)]
                                              ELSE [MsgId |-> d.r.MsgId, Status |-> Zeros(4)]))
      must(a) == CASE st = "ok" -> {a} [] st = "lax" -> {a, No, End} [] OTHER -> {No, End}
  IN CASE kind = "" -> {No}
       [] kind = Goodbye(c) -> must(Ans(bye, TRUE))
       [] kind = RespOf(Goodbye(c)) -> must(End)
       [] kind = "active_test" /\ c.isp # "sgip" -> must(Ans(beat, FALSE))
       [] kind = "deliver" /\ c.isp # "sgip" -> must(Ans(got, FALSE))
       [] kind = RespOf(Hello(c)) -> IF st = "ok" /\ Zero(d.r.Status) THEN {No} ELSE {No, End}
       [] kind \in {"submit_resp", "active_test_resp", "deliver_resp"} -> must(No)
       [] c.isp = "sgip" /\ kind \in {"deliver", "report"} -> {No, End}    \* SGIP gateways open connections of their own for these
       [] OTHER -> {No, End}                                                \* the client's own requests

(* The answer to the login: "yes", "no", or "free" where it is odd.            *)
Welcome(c, a) ==
  LET n == Num(SubSeq(a, 1, 4))
      kind == RespOf(Hello(c))
      d == Dec(Layout(c.isp, kind, c.ver), SubSeq(a, 13, n))
      short == c.isp = "sgip" /\ n = 21
  IN IF Len(a) < 12 THEN "no"
     ELSE IF n < 12 \/ n > MaxLen \/ Len(a) < n \/ SubSeq(a, 5, 8) # Cmd(c.isp, kind) \/ d.st = "err" THEN "no"
     ELSE IF ~Zero(d.r.Status) THEN "no"
     ELSE IF d.st = "ok" \/ short THEN "yes" ELSE "free"

--------------------------------------------------------------------------------
Init == /\ tid \in 1..Len(Data) /\ i = 1 /\ run = FALSE /\ pc = <<>> /\ idle = FALSE
        /\ CInit([isp |-> Data[tid].isp, ver |-> Data[tid].ver])

Asked == <<[k |-> "login", acct |-> D.acct, cred |-> TRUE, ver |-> IF D.isp = "sgip" THEN 0 ELSE D.ver \div 16]>>
Login ==
  /\ E.e = "login" /\ ph = "none" /\ E.reqs = (IF E.wfail THEN <<>> ELSE Asked)
  /\ LET w == IF E.wfail THEN "no" ELSE Welcome(cx, E.ans) IN E.ok \in (IF w = "free" \/ (w = "yes" /\ ~E.same) THEN BOOLEAN ELSE {w = "yes"})
  /\ ph' = (IF E.ok THEN "up" ELSE "down")
  /\ inb' = IF E.ok THEN Drop(E.ans, Num(SubSeq(E.ans, 1, 4))) ELSE <<>>
  /\ eof' = FALSE /\ brk' = FALSE /\ run' = TRUE /\ pc' = <<>>
  /\ UNCHANGED <<cx, fin, outs, tid, i, idle>>
Start ==
  /\ E.e = "par" /\ ph # "none" /\ run' = TRUE /\ pc' = [t \in 1..Len(E.th) |-> [at |-> 1, st |-> 0]]
  /\ UNCHANGED <<cvars, tid, i, idle>>

(* Thread t's current operation.                                               *)
Op(t) == E.th[t][pc[t].at]
Busy(t) == pc[t].at <= Len(E.th[t]) /\ ~Op(t).b          \* b: it never returned
Done(t) == pc' = [pc EXCEPT ![t] = [at |-> @.at + 1, st |-> 0]]
More(t) == pc' = [pc EXCEPT ![t].st = @ + 1]
NextOut == E.out[Len(outs) + 1]
Beat == idle /\ cx.isp # "sgip" /\ Len(outs) < Len(E.out) /\ NextOut.k = "hb" /\ Emit(NextOut)
Thread(t) ==
  LET o == Op(t) m == pc[t].st IN
  /\ Busy(t)
  /\ CASE o.o = "feed" -> Feed(o.d) /\ Done(t) /\ UNCHANGED idle
       [] o.o = "eof" -> Hangup /\ Done(t) /\ UNCHANGED idle
       [] o.o = "brk" -> Break /\ Done(t) /\ UNCHANGED idle
       [] o.o = "idle" -> idle' = (idle \/ o.n > 60000) /\ Done(t) /\ UNCHANGED cvars
       [] o.o = "close" -> (IF m = 0 THEN CloseBegin /\ More(t) ELSE CloseEnd /\ Done(t)) /\ UNCHANGED idle
       [] o.o = "live" -> /\ UNCHANGED idle
                          /\ \/ Live(o.r) /\ Done(t)
                             \/ m = 0 /\ Beat /\ More(t)
                             \/ idle /\ brk /\ ~o.r /\ Fail /\ Done(t)            \* the heartbeat did not get through
       [] o.o = "active" -> /\ UNCHANGED idle
                            /\ \/ Len(outs) < Len(E.out) /\ NextOut.k = "hb" /\ cx.isp # "sgip" /\ Emit(NextOut) /\ Done(t)
                               \/ Fail /\ Done(t)
                               \/ CanFail /\ Done(t) /\ UNCHANGED cvars
                               \/ cx.isp = "sgip" /\ Done(t) /\ UNCHANGED cvars
       [] o.o = "send" -> /\ UNCHANGED idle
                          /\ \/ /\ m < o.n /\ m < Len(o.res) /\ Len(outs) < Len(E.out)
                                /\ NextOut = [k |-> "sub", to |-> o.to, d |-> o.res[m + 1].s] /\ o.res[m + 1].to = o.to
                                /\ Emit(NextOut) /\ More(t)
                             \/ m = o.n /\ Len(o.res) = m /\ Done(t) /\ UNCHANGED cvars
                             \/ m < o.n /\ Len(o.res) = m /\ Fail /\ Done(t)
  /\ UNCHANGED <<tid, i, run>>
Recv == /\ Receiver /\ UNCHANGED <<tid, i, run, pc, idle>>
Gone == E.e = "login" /\ E.eof /\ ~eof /\ Hangup /\ UNCHANGED <<tid, i, run, pc, idle>>
Finish == /\ \A t \in 1..Len(pc) : pc[t].at > Len(E.th[t])
          /\ (E.e = "login" => eof = E.eof) /\ Quiet /\ outs = E.out /\ E.closed = (ph = "down")
          /\ i' = i + 1 /\ run' = FALSE /\ outs' = <<>>
          /\ UNCHANGED <<cx, ph, fin, inb, eof, brk, tid, pc, idle>>

Next == /\ i <= Len(D.ev)
        /\ \/ ~run /\ (Login \/ Start)
           \/ run /\ ((\E t \in 1..Len(pc) : Thread(t)) \/ Recv \/ Gone) /\ Len(outs') <= Len(E.out) /\ (outs' = outs \/ outs'[Len(outs')] = E.out[Len(outs')])
           \/ run /\ Finish
Spec == Init /\ [][Next]_<<cvars, tvars>>

Report == /\ (i > Len(D.ev) => PrintT(<<"DONE", tid>>))
          /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString([ph |-> ph, unread |-> Len(inb), wrote |-> Len(outs), threads |-> pc])))
================================================================================
