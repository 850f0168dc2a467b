---------------------------- MODULE GatewayTrace ----------------------------
(* Judges traces recorded from the real server: a trace is accepted iff it   *)
(* is a behaviour of Gateway (silent actions may be inserted anywhere).      *)
EXTENDS Gateway, Json, IOUtils

File == IOEnv.VERIF_TRACE
Data == ndJsonDeserialize(File)

VARIABLES tid, i
tvars == <<vars, tid, i>>

T == Data[tid].ev
E == T[i]
PathOf(tr) == {tr.ev[k].c : k \in {k \in 1..Len(tr.ev) : "c" \in DOMAIN tr.ev[k]}}

CfgOf(tr) == [tr.cfg EXCEPT !.contents = {tr.cfg.contents[k] : k \in 1..Len(tr.cfg.contents)}]

Init ==
  /\ tid \in 1..Len(Data)
  /\ i = 1
  /\ cfg = CfgOf(Data[tid])
  /\ now = 0
  /\ accts = Data[tid].accts
  /\ conn = [c \in PathOf(Data[tid]) |-> NewConn]
  /\ ids = {}

Own(p) == {"#" \o p.seq} \cup (IF "own" \in DOMAIN p THEN {p.own} ELSE {})
Wr(c, p) ==
  CASE p.k = "loginr" -> WrLogin(c, p.seq, p.st)
    [] p.k = "submitr" -> WrSubmit(c, p.seq, p.st, p.mid)
    [] p.k = "report" -> WrReport(c, p.mid, p.from, p.to, p.dest, p.stat, p.sm, Own(p))
    [] p.k = "mo" -> WrMo(c, p.from, p.to, p.text, p.svc, Own(p))
    [] p.k = "active" -> WrHeartbeat(c, Own(p))
    [] p.k = "aresp" -> WrActiveResp(c, p.seq)
    [] p.k = "term" -> WrTerm(c, Own(p))
    [] p.k = "tresp" -> WrTermResp(c, p.seq)
    [] OTHER -> FALSE

Event ==
  CASE E.e = "opening" -> Opening(E.c)
    [] E.e = "opened" -> Opened(E.c, E.ok)
    [] E.e = "recv" -> Recv(E.c, E.pk)
    [] E.e = "wr" -> Wr(E.c, E.p)
    [] E.e \in {"peer", "fail"} -> Peer(E.c)
    [] E.e = "closing" -> Closing(E.c)
    [] E.e = "closed" -> Closed(E.c, E.saved)
    [] E.e = "tick" -> Tick
    [] E.e = "rm" -> RemoveAcct(E.a)
    [] E.e = "add" -> AddAcct(E.a, Data[tid].accts[E.a])
    [] E.e = "q" -> Quiesce(E.act, E.cnt, E.full, E.blk)
    [] E.e = "end" -> End
    [] OTHER -> FALSE   \* crash, panic, leak, stray, stuck

Next ==
  /\ i <= Len(T)
  /\ \/ E.t > now /\ Advance(E.t) /\ UNCHANGED <<tid, i>>
     \/ E.t = now /\ Event /\ i' = i + 1 /\ UNCHANGED tid
     \/ Silent /\ UNCHANGED <<tid, i>>

Spec == Init /\ [][Next]_tvars

Report ==
  /\ (i > Len(T) => PrintT(<<"DONE", tid>>))
  /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString(conn)))
=============================================================================
