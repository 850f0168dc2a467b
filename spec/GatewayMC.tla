----------------------------- MODULE GatewayMC ------------------------------
(* Gateway on a small closed instance: peers that send anything at any time, *)
(* connections that come and go, an operator's account store, a clock.       *)
(* The properties C01-C04, C07-C13 are stated here and checked by TLC.       *)
EXTENDS Gateway

CONSTANTS
  CONNS,    \* connections
  ACCTS,    \* accounts that exist
  PROTO, CAP, MAXC, W, TMAX, NSEQ, RATE,
  KINDS,    \* packet kinds peers send
  PAIRS,    \* TRUE: also two packets in one segment
  TICKS,    \* whether the timer ticks
  FORCE, STORE, MO

VARIABLES
  n,        \* packets sent so far
  got,      \* seq -> connection: submits the gateway took in on a logged-in connection
  ans,      \* seq -> answers written
  tkd,      \* when the timer ticked last
  okc,      \* connection -> success answers written on it
  log       \* connection -> kinds written before / after its login success (C01)

mcvars == <<vars, n, got, ans, okc, log, tkd>>

Acct == [max |-> MAXC, w |-> W, ev |-> 1, ver |-> 3, no |-> "1", svc |-> "s"]

MCInit ==
  /\ cfg = [proto |-> PROTO, cap |-> CAP, dlo |-> 1, dhi |-> 1, rd |-> 1, rate |-> RATE, force |-> FORCE, idle |-> 2,
            grace |-> 1, timed |-> TRUE, loose |-> FALSE, moEnable |-> MO, moRate |-> "all", moPhone |-> "p",
            contents |-> {<<"", "t">>}, tol |-> 0]
  /\ now = 0
  /\ accts = [a \in ACCTS |-> Acct]
  /\ conn = [c \in CONNS |-> NewConn]
  /\ ids = {}
  /\ n = 0 /\ got = <<>> /\ ans = <<>>
  /\ tkd = 0
  /\ okc = [c \in CONNS |-> 0]
  /\ log = [c \in CONNS |-> {}]

Sq(k) == ToString(k)
Packet(k, m) ==
  CASE k = "login"   -> [k |-> "login", seq |-> Sq(m), acct |-> CHOOSE a \in ACCTS : TRUE, ver |-> 3, cred |-> TRUE]
    [] k = "loginB"  -> [k |-> "login", seq |-> Sq(m), acct |-> CHOOSE a \in ACCTS : TRUE, ver |-> 3, cred |-> FALSE]
    [] k = "loginV"  -> [k |-> "login", seq |-> Sq(m), acct |-> CHOOSE a \in ACCTS : TRUE, ver |-> 2, cred |-> FALSE]
    [] k = "loginU"  -> [k |-> "login", seq |-> Sq(m), acct |-> "?", ver |-> 2, cred |-> FALSE]
    [] k = "submit"  -> [k |-> "submit", seq |-> Sq(m), from |-> "f", to |-> "t"]
    [] OTHER         -> [k |-> k, seq |-> Sq(m)]

Keep == UNCHANGED <<n, got, ans, okc, log, tkd>>

Taken(c, pk) ==   \* the submits of pk that connection c's session takes in
  {pk[j].seq : j \in {j \in DOMAIN pk : pk[j].k = "submit" /\ \/ \E s \in conn'[c].acc : s.seq = pk[j].seq
                                                              \/ pk[j].seq \in conn'[c].fc}}

Send(c, pk) ==
  /\ Recv(c, pk)
  /\ n' = n + Len(pk)
  /\ got' = [s \in Taken(c, pk) |-> c] @@ got
  /\ ans' = [s \in Taken(c, pk) |-> 0] @@ ans
  /\ UNCHANGED <<okc, log, tkd>>

Peers ==
  \E c \in CONNS :
    \/ Opening(c) /\ Keep
    \/ Peer(c) /\ Keep
    \/ n < NSEQ /\ \E k \in KINDS : Send(c, <<Packet(k, n)>>)
    \/ PAIRS /\ n + 1 < NSEQ /\ \E k, l \in KINDS : Send(c, <<Packet(k, n), Packet(l, n + 1)>>)

Wrote(c, k) == log' = [log EXCEPT ![c] = @ \cup {<<conn[c].phase, k>>}]

\* names would only multiply states: not modelled here
Nm == {}
Server ==
  \E c \in CONNS :
    \/ \E ok \in BOOLEAN : Opened(c, ok) /\ Keep
    \/ \E st \in {0, StUnknown, StVersion, StAuth, StLimit} :
         WrLogin(c, conn[c].req.seq, st) /\ Wrote(c, "loginr") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ \E s \in DOMAIN got, st \in {0, StFlow, StFail} :
         /\ got[s] = c
         /\ WrSubmit(c, s, st, Cardinality(ids))
         /\ ans' = [ans EXCEPT ![s] = @ + 1]
         /\ okc' = [okc EXCEPT ![c] = IF st = 0 THEN @ + 1 ELSE @]
         /\ Wrote(c, "submitr") /\ UNCHANGED <<n, got, tkd>>
    \/ \E x \in conn[c].rep : WrReport(c, x.mid, x.to, x.from, x.to, "DELIVRD", 0, Nm) /\ Wrote(c, "report") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ \E s \in conn[c].actives : WrActiveResp(c, s) /\ Wrote(c, "aresp") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ \E s \in conn[c].terms : WrTermResp(c, s) /\ Wrote(c, "tresp") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ WrHeartbeat(c, Nm) /\ Wrote(c, "active") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ WrMo(c, "p", "1", "t", "s", Nm) /\ Wrote(c, "mo") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ WrTerm(c, Nm) /\ Wrote(c, "term") /\ UNCHANGED <<n, got, ans, okc, tkd>>
    \/ Closing(c) /\ Keep
    \/ Closed(c, IF conn[c].ph = "refused" THEN <<>> ELSE << <<conn[c].mt, conn[c].dly, conn[c].rpt>> >>) /\ Keep
    \/ Admit(c) /\ Keep
    \/ Decide(c) /\ Keep
    \/ Start(c) /\ Keep
    \/ DoAresp(c) /\ Keep
    \/ DoDresp(c) /\ Keep
    \/ Release(c) /\ Keep

Operator ==
  /\ STORE
  /\ \E a \in ACCTS : \/ a \in DOMAIN accts /\ RemoveAcct(a)
                      \/ a \notin DOMAIN accts /\ AddAcct(a, Acct)
  /\ Keep

\* at most one tick at an instant, and what it calls for is done first
Timer == TICKS /\ tkd < now /\ tkd' = now /\ Tick /\ UNCHANGED <<n, got, ans, okc, log>>

\* time moves only when everything due now has been done
Pass == now < TMAX /\ (\A c \in CONNS : Settled(conn[c])) /\ Advance(now + 1) /\ Keep

MCNext == Peers \/ Server \/ Operator \/ Timer \/ Pass
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(Server) /\ WF_mcvars(Pass)

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
\* C01: before its login succeeded a connection is written nothing but the login's answer
\*      and, when idle for too long, a terminate request
P_C01 == \A c \in CONNS : \A x \in log[c] : x[1] # "in" => x[2] \in {"loginr", "term"}
\* C02/C03
P_C03 == \A a \in ACCTS : Cardinality(Holding(a)) <= MAXC
P_C03b == \A c \in CONNS : conn[c].phase \in {"acc", "in"} /\ conn[c].ph = "open" => conn[c].resv # ""
\* C04
P_C04 == /\ Cardinality(Admitted) <= CAP
         /\ \A c \in CONNS : conn[c].ph = "open" => conn[c].adm = "yes"
\* C07
P_C07 == \A s \in DOMAIN ans : ans[s] <= 1
P_C07b == \A c \in CONNS : \A s \in conn[c].acc : s.seq \in DOMAIN got /\ ans[s.seq] = 0
\* C08: never more accepted in an interval than the bucket held and gained
P_C08 == \A c \in CONNS : LET r == conn[c] IN r.phase = "in" => r.credit >= 0 /\ r.credit <= r.w * r.ev
\* C09
P_C09 == \A c \in CONNS : conn[c].phase = "in" => Used(conn[c]) <= conn[c].w
\* C10, C13
P_C13 == \A c \in CONNS : conn[c].ph \in {"open", "closing"} =>
            /\ conn[c].mt = okc[c]
            /\ conn[c].rpt <= conn[c].mt
            /\ RATE = "ok" /\ HasReports => conn[c].rpt + Cardinality(conn[c].rep) = conn[c].mt
\* C11
P_C11 == \A c \in CONNS : conn[c].nAt <= 3 \/ conn[c].tk > 0 \/ conn[c].closeAt # {} \/ conn[c].hb = 0
\* C12: a connection that is closed holds nothing
P_C12 == \A c \in CONNS : conn[c].ph \in {"closed", "refused"} => conn[c].resv = "" /\ conn[c].adm # "yes"

\* liveness: what has to be closed is closed; what was taken in is answered or its connection ends
L_C12 == \A c \in CONNS : (conn[c].must \/ conn[c].toclose \/ conn[c].peer) ~> (conn[c].ph = "closed")
L_C02 == \A c \in CONNS : (conn[c].phase = "dec") ~> (conn[c].phase \in {"in", "out"} \/ conn[c].ph = "closed" \/ conn[c].must)
L_C07 == \A c \in CONNS : \A k \in 0..NSEQ :
           (Sq(k) \in DOMAIN got /\ got[Sq(k)] = c) ~> (ans[Sq(k)] = 1 \/ conn[c].ph # "open" \/ conn[c].must \/ now = TMAX)
=============================================================================
