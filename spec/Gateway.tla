------------------------------- MODULE Gateway -------------------------------
(***************************************************************************)
(* The SMS gateway (msc_server): what a peer, an operator and the log can   *)
(* observe of it.  One action per observable event (a connection opened, a  *)
(* segment received, a packet written, a connection closed, a timer tick)   *)
(* plus a few silent ones (an admission, a login decision, a request        *)
(* entering the window).  The same actions are explored exhaustively on a   *)
(* small instance (GatewayMC) and used to judge traces recorded from the    *)
(* real server (GatewayTrace).                                              *)
(*                                                                          *)
(* Times are integers (microseconds in traces, abstract units in the model).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,    \* the scenario's configuration (constant in a behaviour)
  now,    \* current time
  accts,  \* account id -> [max, w, ev, ver, no, svc]: the account store
  conn,   \* connection -> its record
  ids     \* names given out: message ids (of answers and of what is delivered), numbers of the server's own requests

vars == <<cfg, now, accts, conn, ids>>

(***************************************************************************)
(* cfg: [proto: cmpp|smgp|sgip, cap, dlo, dhi (processing time), rd (report *)
(* delay), rate: ok|fail|mix, force, idle, grace, timed, moEnable,          *)
(* moRate: all|none|some, moPhone, contents (set of <<sub,text>>), tol,     *)
(* loose: submits may be handled later than their arrival (an event loop    *)
(* waits while a session is overloaded), so arrival times do not decide     *)
(* which of them find a token]                                              *)
(***************************************************************************)

NoReq == [seq |-> "", acct |-> "", ver |-> 0, cred |-> FALSE]

NewConn ==
  [ ph |-> "none",       \* none, opening, open, refused, closing, closed
    adm |-> "no",        \* no, yes, ref : the admission decision
    phase |-> "anon",    \* anon, dec, acc, rej, in, out : the login
    req |-> NoReq, status |-> 0,
    resv |-> "",         \* the account whose slot the connection holds
    w |-> 0, ev |-> 0, credit |-> 0, tok |-> 0,
    acc |-> {},          \* accepted, unanswered submits [seq, from, to]
    fc |-> {},           \* refused by flow control, unanswered
    wait |-> 0,          \* accepted submits waiting for the window
    proc |-> <<>>,       \* start times of submits being processed
    rep |-> {},          \* reports due [due, mid, from, to]
    actives |-> {}, terms |-> {}, wA |-> 0, wD |-> 0, wT |-> 0,
    must |-> FALSE,      \* the server has to close it at once, silently
    toclose |-> FALSE,   \* terminate exchange finished: closes next
    peer |-> FALSE,      \* the peer is gone or a write failed
    hb |-> 0, tk |-> 0, mo |-> 0, moMay |-> FALSE,
    closeAt |-> {},
    nAt |-> 0, lastUse |-> 0,
    mt |-> 0, dly |-> 0, rpt |-> 0 ]

Conns == DOMAIN conn
Used(r) == Len(r.proc) + Cardinality(r.rep)
Free(r) == ~cfg.timed \/ Used(r) < r.w
Waiting(r) == r.wait > 0 \/ r.actives # {} \/ r.terms # {} \/ r.wA > 0 \/ r.wD > 0 \/ r.wT > 0

Admitted == {c \in Conns : conn[c].adm = "yes"}
Holding(a) == {c \in Conns : conn[c].resv = a}
LoggedIn(a) == {c \in Conns : conn[c].resv = a /\ conn[c].phase = "in" /\ conn[c].ph \in {"open", "closing"}}

Set(c, r) == conn' = [conn EXCEPT ![c] = r]
Open(c) == conn[c].ph = "open"

(***************************************************************************)
(* Protocol constants                                                       *)
(***************************************************************************)
StUnknown == CASE cfg.proto = "cmpp" -> 2 [] cfg.proto = "smgp" -> 69 [] OTHER -> 1
StVersion == CASE cfg.proto = "cmpp" -> 4 [] cfg.proto = "smgp" -> 22 [] OTHER -> 1
StAuth    == CASE cfg.proto = "cmpp" -> 3 [] cfg.proto = "smgp" -> 21 [] OTHER -> 1
StLimit   == CASE cfg.proto = "cmpp" -> 5 [] cfg.proto = "smgp" -> 2  [] OTHER -> 3
StFlow    == CASE cfg.proto = "cmpp" -> 8 [] cfg.proto = "smgp" -> 1  [] OTHER -> 33
StFail    == CASE cfg.proto = "cmpp" -> 8 [] cfg.proto = "smgp" -> 75 [] OTHER -> 33

HasReports == cfg.proto # "sgip"
HasHeartbeat == cfg.proto # "sgip"

(***************************************************************************)
(* Connections: the server-wide limit (C04)                                 *)
(***************************************************************************)
Opening(c) ==
  /\ conn[c].ph = "none"
  /\ Set(c, [conn[c] EXCEPT !.ph = "opening"])
  /\ UNCHANGED <<cfg, now, accts, ids>>

\* silent: admitted iff fewer than cap are admitted
Admit(c) ==
  /\ conn[c].ph = "opening" /\ conn[c].adm = "no"
  /\ Set(c, [conn[c] EXCEPT !.adm = IF Cardinality(Admitted) < cfg.cap THEN "yes" ELSE "ref"])
  /\ UNCHANGED <<cfg, now, accts, ids>>

Opened(c, ok) ==
  /\ conn[c].ph = "opening"
  /\ \/ ok /\ conn[c].adm = "yes" /\ Set(c, [conn[c] EXCEPT !.ph = "open", !.lastUse = now])
     \/ ~ok /\ conn[c].adm = "ref" /\ Set(c, [conn[c] EXCEPT !.ph = "refused"])
  /\ UNCHANGED <<cfg, now, accts, ids>>

(***************************************************************************)
(* Receiving packets                                                        *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b

\* the token bucket (C08): capacity w, one token per ev
Credit(r) == Min2(r.w * r.ev, r.credit + (now - r.tok))
Accept(r, p) == [r EXCEPT !.credit = Credit(r) - r.ev, !.tok = now, !.wait = @ + 1,
                          !.acc = @ \cup {[seq |-> p.seq, from |-> p.from, to |-> p.to]}]
Refuse(r, p) == [r EXCEPT !.credit = Credit(r), !.tok = now, !.fc = @ \cup {p.seq}]
DoSubmit(r, p) ==
  IF cfg.loose THEN {[r EXCEPT !.wait = @ + 1, !.acc = @ \cup {[seq |-> p.seq, from |-> p.from, to |-> p.to]}]} ELSE
  (IF Credit(r) >= r.ev - cfg.tol THEN {Accept(r, p)} ELSE {}) \cup
  (IF Credit(r) <  r.ev + cfg.tol THEN {Refuse(r, p)} ELSE {})

Handled == {"login", "submit", "active", "aresp", "dresp", "term", "tresp"}

\* the records a connection may have after packet p
HandlePk(r, p) ==
  IF r.must THEN {r}
  ELSE IF p.k \in {"badlen", "badcmd", "mal"} THEN {[r EXCEPT !.must = TRUE]}
  ELSE IF p.k = "amb" /\ r.phase # "in" /\ p.of # "login" THEN {[r EXCEPT !.must = TRUE]}
  ELSE IF p.k \notin Handled THEN {r}
  ELSE IF p.k = "login" THEN
         IF r.phase # "anon" THEN {[r EXCEPT !.must = TRUE]}
         ELSE {[r EXCEPT !.phase = "dec", !.req = [seq |-> p.seq, acct |-> p.acct, ver |-> p.ver, cred |-> p.cred]]}
  ELSE IF r.phase # "in" THEN {[r EXCEPT !.must = TRUE]}
  ELSE CASE p.k = "submit" -> DoSubmit(r, p)
         [] p.k = "active" -> {[r EXCEPT !.actives = @ \cup {p.seq}]}
         [] p.k = "aresp"  -> {[r EXCEPT !.wA = @ + 1]}
         [] p.k = "dresp"  -> {[r EXCEPT !.wD = @ + 1]}
         [] p.k = "term"   -> {[r EXCEPT !.terms = @ \cup {p.seq}]}
         [] p.k = "tresp"  -> {[r EXCEPT !.wT = @ + 1]}

RECURSIVE HandleAll(_, _)
HandleAll(rs, pk) ==
  IF pk = <<>> THEN rs
  ELSE HandleAll(UNION {HandlePk(r, Head(pk)) : r \in rs}, Tail(pk))

Recv(c, pk) ==
  /\ Open(c)
  /\ \E r \in HandleAll({conn[c]}, pk) : Set(c, r)
  /\ UNCHANGED <<cfg, now, accts, ids>>

(***************************************************************************)
(* Login (C01, C02, C03)                                                    *)
(***************************************************************************)
Verdict(q) ==
  IF q.acct \notin DOMAIN accts THEN StUnknown
  ELSE IF cfg.proto # "sgip" /\ q.ver # accts[q.acct].ver THEN StVersion
  ELSE IF ~q.cred THEN StAuth
  ELSE 0

\* silent: the decision; an accepted login takes its slot at this moment
Decide(c) ==
  LET r == conn[c]
      v == Verdict(r.req)
  IN /\ r.ph = "open" /\ r.phase = "dec" /\ ~r.must
     /\ IF v # 0 THEN Set(c, [r EXCEPT !.phase = "rej", !.status = v])
        ELSE LET a == accts[r.req.acct] IN
             IF Cardinality(Holding(r.req.acct)) < a.max
             THEN Set(c, [r EXCEPT !.phase = "acc", !.resv = r.req.acct, !.w = a.w, !.ev = a.ev])
             ELSE Set(c, [r EXCEPT !.phase = "rej", !.status = StLimit])
     /\ UNCHANGED <<cfg, now, accts, ids>>

\* In the same moment as its connection is being closed a login may still take a slot
\* (given back by Release) -- never observable, hence no action for it.

WrLogin(c, seq, st) ==
  LET r == conn[c] IN
  /\ Open(c) /\ ~r.must /\ seq = r.req.seq
  /\ \/ /\ r.phase = "acc" /\ st = 0
        /\ Set(c, [r EXCEPT !.phase = "in", !.lastUse = now, !.credit = r.w * r.ev, !.tok = now])
     \/ /\ r.phase = "rej" /\ st = r.status
        /\ Set(c, [r EXCEPT !.phase = "out"])
  /\ UNCHANGED <<cfg, now, accts, ids>>

(***************************************************************************)
(* Names (C39).  nm: the names a packet introduces -- the sequence number   *)
(* of a request of the gateway's own, the id of a message it delivers; no   *)
(* name is given twice, on whatever connection.                             *)
(***************************************************************************)
Name(nm) == nm \cap ids = {} /\ ids' = ids \cup nm

(***************************************************************************)
(* Serving (C07, C09, C10): every action here needs a logged-in session     *)
(***************************************************************************)
Serving(c) == Open(c) /\ ~conn[c].must /\ conn[c].phase = "in"

\* silent: a waiting submit enters the window
Start(c) ==
  LET r == conn[c] IN
  /\ cfg.timed /\ Serving(c) /\ r.wait > 0 /\ Used(r) < r.w
  /\ Set(c, [r EXCEPT !.wait = @ - 1, !.proc = Append(@, now)])
  /\ UNCHANGED <<cfg, now, accts, ids>>

RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

\* the records after one submit's processing ended
Finished(r) ==
  IF cfg.timed
  THEN {[r EXCEPT !.proc = RemoveAt(@, k)] :
          k \in {j \in 1..Len(r.proc) : /\ now >= r.proc[j] + cfg.dlo /\ now <= r.proc[j] + cfg.dhi
                                        /\ \A l \in 1..(j-1) : r.proc[l] # r.proc[j]}}
  ELSE {[r EXCEPT !.wait = @ - 1]}

WrSubmit(c, seq, st, mid) ==
  LET r == conn[c] IN
  /\ Serving(c)
  /\ \/ /\ seq \in r.fc /\ st = StFlow
        /\ Set(c, [r EXCEPT !.fc = @ \ {seq}])
        /\ UNCHANGED ids
     \/ \E s \in r.acc :
        /\ cfg.loose /\ s.seq = seq /\ st = StFlow
        /\ Set(c, [r EXCEPT !.acc = @ \ {s}, !.wait = @ - 1])
        /\ UNCHANGED ids
     \/ \E s \in r.acc, q \in Finished(r) :
        LET q1 == [q EXCEPT !.acc = @ \ {s}] IN
        /\ s.seq = seq
        /\ \/ /\ st = 0 /\ cfg.rate # "fail"
              /\ mid \notin ids /\ ids' = IF HasReports THEN ids \cup {mid} ELSE ids
              /\ LET q2 == [q1 EXCEPT !.mt = @ + 1, !.lastUse = now]
                     rep == [due |-> now + cfg.rd, mid |-> mid, from |-> s.from, to |-> s.to]
                 IN \/ HasReports /\ Set(c, [q2 EXCEPT !.rep = @ \cup {rep}])
                    \/ (cfg.rate = "mix" \/ ~HasReports) /\ Set(c, q2)
           \/ /\ st = StFail /\ cfg.rate # "ok"
              /\ Set(c, q1) /\ UNCHANGED ids
  /\ UNCHANGED <<cfg, now, accts>>

\* the state reported is the delivered one, except where the simulator fakes another
CmppStat(sm) ==
  CASE sm = 99 -> "REJECTD" [] sm = 88 -> "UNKNOWN" [] sm = 77 -> "ACCEPTD" [] sm = 66 -> "UNDELIV"
    [] sm = 55 -> "DELETED" [] sm = 44 -> "EXPIRED" [] sm = 33 -> "MA:0000" [] sm = 22 -> "MB:0000"
    [] sm = 11 -> "CA:0000" [] sm = 10 -> "CB:0000" [] OTHER -> "DELIVRD"
StatOk(stat, sm) ==
  IF cfg.proto = "cmpp" THEN stat = CmppStat(sm)
  ELSE stat = "DELIVRD" \/ (now > 900000000 /\ stat \in {"EXPIRED", "UNDELIV"})

WrReport(c, mid, from, to, dest, stat, sm, nm) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ HasReports
  /\ \E x \in r.rep :
       /\ x.mid = mid
       /\ ~cfg.timed \/ x.due = now
       /\ from = x.to /\ dest = x.to /\ to = x.from
       /\ StatOk(stat, sm)
       /\ Set(c, [r EXCEPT !.rep = @ \ {x}, !.rpt = @ + 1, !.lastUse = now])
  /\ Name(nm) /\ UNCHANGED <<cfg, now, accts>>

WrActiveResp(c, seq) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ Free(r) /\ seq \in r.actives
  /\ Set(c, [r EXCEPT !.actives = @ \ {seq}, !.lastUse = now])
  /\ UNCHANGED <<cfg, now, accts, ids>>

WrTermResp(c, seq) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ Free(r) /\ seq \in r.terms
  /\ Set(c, [r EXCEPT !.terms = @ \ {seq}, !.toclose = TRUE])
  /\ UNCHANGED <<cfg, now, accts, ids>>

\* silent: an answer from the client is taken notice of
DoAresp(c) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ r.wA > 0 /\ Free(r)
  /\ Set(c, [r EXCEPT !.wA = @ - 1, !.nAt = 0, !.lastUse = now])
  /\ UNCHANGED <<cfg, now, accts, ids>>

DoDresp(c) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ r.wD > 0 /\ Free(r)
  /\ Set(c, [r EXCEPT !.wD = @ - 1, !.lastUse = now])
  /\ UNCHANGED <<cfg, now, accts, ids>>

(***************************************************************************)
(* The timer (C11)                                                          *)
(***************************************************************************)
Ticked(r) ==
  IF r.ph # "open" THEN r
  ELSE IF now - r.lastUse > cfg.force \/ r.nAt > 2 THEN [r EXCEPT !.tk = @ + 1]
  ELSE IF r.phase # "in" THEN r
  ELSE [r EXCEPT
         !.hb = IF HasHeartbeat /\ now - r.lastUse > cfg.idle THEN @ + 1 ELSE @,
         !.mo = IF cfg.moEnable /\ HasReports /\ cfg.moRate = "all" /\ r.resv \in DOMAIN accts THEN @ + 1 ELSE @,
         !.moMay = cfg.moEnable /\ HasReports /\ cfg.moRate = "some" /\ r.resv \in DOMAIN accts]

Tick ==
  /\ conn' = [c \in Conns |-> Ticked(conn[c])]
  /\ UNCHANGED <<cfg, now, accts, ids>>

WrHeartbeat(c, nm) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ r.hb > 0
  /\ Set(c, [r EXCEPT !.hb = @ - 1, !.nAt = @ + 1])
  /\ Name(nm) /\ UNCHANGED <<cfg, now, accts>>

WrMo(c, from, to, text, svc, nm) ==
  LET r == conn[c] IN
  /\ Serving(c) /\ (r.mo > 0 \/ r.moMay)
  /\ from = cfg.moPhone
  /\ \E x \in cfg.contents : text = x[2] /\ to = accts[r.resv].no \o x[1]
  /\ cfg.proto = "cmpp" => svc = accts[r.resv].svc
  /\ Set(c, [r EXCEPT !.mo = IF @ > 0 THEN @ - 1 ELSE 0, !.moMay = FALSE, !.dly = @ + 1])
  /\ Name(nm) /\ UNCHANGED <<cfg, now, accts>>

WrTerm(c, nm) ==
  LET r == conn[c] IN
  /\ Open(c) /\ ~r.must /\ r.tk > 0
  /\ Set(c, [r EXCEPT !.tk = @ - 1, !.closeAt = @ \cup {now + cfg.grace}])
  /\ Name(nm) /\ UNCHANGED <<cfg, now, accts>>

(***************************************************************************)
(* Closing (C12, C13)                                                       *)
(***************************************************************************)
Peer(c) ==
  /\ Open(c)
  /\ Set(c, [conn[c] EXCEPT !.peer = TRUE])
  /\ UNCHANGED <<cfg, now, accts, ids>>

MayClose(r) ==
  \/ r.must \/ r.toclose \/ r.peer \/ r.phase = "out"
  \/ r.closeAt # {}
  \/ (r.wT > 0 /\ Free(r))

Closing(c) ==
  /\ Open(c) /\ MayClose(conn[c])
  /\ Set(c, [conn[c] EXCEPT !.ph = "closing"])
  /\ UNCHANGED <<cfg, now, accts, ids>>

\* silent: the connection's places are given back
Release(c) ==
  /\ conn[c].ph = "closing" /\ conn[c].adm = "yes"
  /\ Set(c, [conn[c] EXCEPT !.adm = "no", !.resv = ""])
  /\ UNCHANGED <<cfg, now, accts, ids>>

Closed(c, saved) ==
  LET r == conn[c] IN
  /\ \/ r.ph = "refused" /\ saved = <<>>
     \/ r.ph = "closing" /\ saved = << <<r.mt, r.dly, r.rpt>> >>
  /\ Set(c, [NewConn EXCEPT !.ph = "closed"])
  /\ UNCHANGED <<cfg, now, accts, ids>>

(***************************************************************************)
(* Accounts come and go (the store reloads)                                 *)
(***************************************************************************)
RemoveAcct(a) ==
  /\ accts' = [x \in DOMAIN accts \ {a} |-> accts[x]]
  /\ UNCHANGED <<cfg, now, conn, ids>>

AddAcct(a, v) ==
  /\ accts' = (a :> v) @@ accts
  /\ UNCHANGED <<cfg, now, conn, ids>>

(***************************************************************************)
(* Quiescence: nothing more can happen at this instant.  What the gateway   *)
(* owes without waiting for time to pass must have been delivered.          *)
(***************************************************************************)
Settled(r) ==
  /\ r.ph \notin {"opening", "closing", "refused"}
  /\ r.ph = "open" =>
       /\ ~r.must /\ ~r.toclose /\ ~r.peer
       /\ r.phase \notin {"dec", "acc", "rej", "out"}
       /\ r.hb = 0 /\ r.tk = 0 /\ r.mo = 0
       /\ \A t \in r.closeAt : t > now
       /\ cfg.timed =>
            /\ r.fc = {}
            /\ (Used(r) < r.w => ~Waiting(r))
            /\ \A k \in 1..Len(r.proc) : r.proc[k] + cfg.dhi > now
            /\ \A x \in r.rep : x.due > now

CountOk(cnt) ==
  \A a \in DOMAIN cnt :
     Cardinality(LoggedIn(a)) <= cnt[a] /\ cnt[a] <= Cardinality(Holding(a))

\* An event loop may be waiting inside a handler only while one of its sessions has more
\* in progress than its pool takes (twice the window).
Load(r) == r.wait + Used(r) + Cardinality(r.fc) + Cardinality(r.actives) + Cardinality(r.terms) + r.wA + r.wD + r.wT
Overloaded(r) == r.ph = "open" /\ r.phase = "in" /\ Load(r) > 2 * r.w

\* blk: the loops that are waiting, as sequences of connections
Quiesce(act, cnt, full, blk) ==
  /\ act = Cardinality(Admitted)
  /\ CountOk(cnt)
  /\ \A k \in 1..Len(blk) : \E j \in 1..Len(blk[k]) : (blk[k][j] \in Conns /\ Overloaded(conn[blk[k][j]]))
  /\ full => \A c \in Conns : Settled(conn[c]) \/ \E k \in 1..Len(blk) : \E j \in 1..Len(blk[k]) : blk[k][j] = c
  /\ conn' = [c \in Conns |-> [conn[c] EXCEPT !.moMay = IF full THEN FALSE ELSE @]]
  /\ UNCHANGED <<cfg, now, accts, ids>>

\* everything that was in progress has had the time it needs
Idle(r) ==
  r.ph = "open" => /\ Settled(r)
                   /\ ~Waiting(r) /\ r.acc = {} /\ r.fc = {} /\ r.proc = <<>>
                   /\ cfg.rate = "mix" \/ r.rep = {}
End ==
  /\ \A c \in Conns : Idle(conn[c])
  /\ UNCHANGED vars

\* time passes only when nothing that could start is waiting (C09: work conserving)
Advance(t) ==
  /\ t > now
  /\ cfg.timed => \A c \in Conns : LET r == conn[c] IN
        (r.ph = "open" /\ r.phase = "in" /\ ~r.must /\ Used(r) < r.w) => ~Waiting(r)
  /\ now' = t
  /\ UNCHANGED <<cfg, accts, conn, ids>>

Silent ==
  \E c \in Conns : Admit(c) \/ Decide(c) \/ Start(c) \/ DoAresp(c) \/ DoDresp(c) \/ Release(c)
=============================================================================
