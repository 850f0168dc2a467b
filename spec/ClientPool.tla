------------------------------ MODULE ClientPool ------------------------------
(* The client as its user sees it: messages go out on pooled sessions with the *)
(* operators' gateways, their results are looked up, filled in by answers and  *)
(* reports, expire and are handed over, and everything ends at the shutdown.   *)
(*                                                                             *)
(* cx holds what the configuration says:                                       *)
(*   op[o]: [conf: configured and known, max: sessions, win: burst, ev:        *)
(*   microseconds per message, tick: ms between two looks at the pool]         *)
(*   exp, chk: ms until a result expires, between two checks for it            *)
(*   hand: expired results are handed over                                     *)
(*   match[phone]: the operators whose segment the number matches              *)
(*   limit: rates are judged; lru: use of the sessions is judged               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cx, now,
          closed,       \* time of the shutdown, 0 before it
          oper,         \* o -> [tok, made, mode, since, empty, starved]
          conns,        \* connections in the order they were opened: [op, st, left, uses, act, beat]
          sends,        \* calls in order: [t, ph, n, got, st, qid, bt]
          parts,        \* key -> what was sent and what is known of it
          byMid, early, \* message id -> key; reports that came before their answer
          handed        \* keys handed over
pvars == <<cx, now, closed, oper, conns, sends, parts, byMid, early, handed>>

Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

PInit(c, t, mode) ==
  /\ cx = c /\ now = t /\ closed = 0 /\ conns = <<>> /\ sends = <<>> /\ parts = <<>> /\ byMid = <<>> /\ early = <<>> /\ handed = {}
  /\ oper = [o \in DOMAIN c.op |-> [tok |-> c.op[o].win * c.op[o].ev, made |-> 0, mode |-> mode[o], since |-> 0, empty |-> 0, starved |-> FALSE]]

Open(o) == {c \in 1..Len(conns) : conns[c].op = o /\ conns[c].st = "up"}
Ops == DOMAIN oper

--------------------------------------------------------------------------------
(* Sessions.                                                                   *)
Touch(o) == [oper EXCEPT ![o].made = IF @ = 0 THEN now ELSE @, ![o].since = IF oper[o].made = 0 THEN now ELSE @]
Dial(o, ok) ==
  /\ o \in Ops /\ cx.op[o].conf /\ Cardinality(Open(o)) < cx.op[o].max
  /\ conns' = Append(conns, [op |-> o, st |-> IF ok THEN "up" ELSE "bad", left |-> 0, uses |-> <<>>, act |-> <<now, now>>, beat |-> now])
  /\ oper' = Touch(o)
  /\ UNCHANGED <<cx, now, closed, sends, parts, byMid, early, handed>>
Refused(o) ==
  /\ o \in Ops /\ cx.op[o].conf
  /\ oper' = [Touch(o) EXCEPT ![o].empty = IF Open(o) = {} THEN now ELSE @]
  /\ UNCHANGED <<cx, now, closed, conns, sends, parts, byMid, early, handed>>
Lose(c, st) ==
  /\ conns' = [conns EXCEPT ![c].st = st, ![c].left = IF conns[c].st = "up" THEN now ELSE @]
  /\ LET o == conns[c].op IN
     oper' = [oper EXCEPT ![o].since = IF conns[c].st = "up" THEN now ELSE @, ![o].empty = IF Open(o) \subseteq {c} THEN now ELSE @]
  /\ UNCHANGED <<cx, now, closed, sends, parts, byMid, early, handed>>
(* Something is said on a connection: the gateway sends, or a message is sent.  *)
(* act: when something was last said before this moment, and at it.            *)
Said(x) == [x EXCEPT !.act = IF @[2] = now THEN @ ELSE <<@[2], now>>]
Word(c) == conns' = [conns EXCEPT ![c] = Said(@)] /\ UNCHANGED <<cx, now, closed, oper, sends, parts, byMid, early, handed>>
Idle == 60000
Quiet(x) == IF x.act[2] = now THEN x.act[1] ELSE x.act[2]
(* The client asks whether the gateway is still there only after a minute of    *)
(* silence.                                                                    *)
Beat(c) ==
  /\ (conns[c].st = "up" \/ conns[c].left = now) = TRUE /\ cx.op[conns[c].op].beats
  /\ now > Quiet(conns[c]) + Idle
  /\ conns' = [conns EXCEPT ![c].beat = now]
  /\ UNCHANGED <<cx, now, closed, oper, sends, parts, byMid, early, handed>>
Down(c) == Lose(c, IF conns[c].st = "gone" THEN "gone" ELSE "down")
(* The client closes a connection only if the gateway did, or did not let it in. *)
Gone(c) == (conns[c].st \in {"down", "bad"} \/ (closed # 0 /\ conns[c].st = "up")) /\ Lose(c, "gone")
Mode(o, m) == oper' = [oper EXCEPT ![o].mode = m, ![o].since = now] /\ UNCHANGED <<cx, now, closed, conns, sends, parts, byMid, early, handed>>
Shutdown == closed' = (IF closed = 0 THEN now ELSE closed) /\ UNCHANGED <<cx, now, oper, conns, sends, parts, byMid, early, handed>>

(* How long it may take to fill the pool.                                      *)
Bound(o) == (2 * cx.op[o].tick) + (1000 * cx.op[o].max) + cx.slow + 500
Full(o) == Cardinality(Open(o)) = cx.op[o].max
(* The least used one: in the last period, in this one, or ever.               *)
Uses(c, a, b) == Cardinality({k \in 1..Len(conns[c].uses) : conns[c].uses[k] >= a /\ conns[c].uses[k] < b})
Preferred(c) ==
  LET o == conns[c].op
      d == cx.op[o].tick
      p == oper[o].made + (((now - oper[o].made) \div d) * d)
      best(a, b) == \A x \in Open(o) : Uses(c, a, b) <= Uses(x, a, b)
  IN ~cx.lru \/ ~Full(o) \/ now < oper[o].since + Bound(o) + (2 * d) \/ best(p - d, p) \/ best(p, now + 1) \/ best(0, now + 1)

--------------------------------------------------------------------------------
(* Sending.                                                                    *)
Call(ph, n) ==
  /\ sends' = Append(sends, [t |-> now, ph |-> ph, n |-> n, got |-> [k \in 1..Len(ph) |-> <<>>], st |-> "busy", qid |-> "0", bt |-> 0])
  /\ UNCHANGED <<cx, now, closed, oper, conns, parts, byMid, early, handed>>
(* A part of a message is written, be it to a connection ending meanwhile.      *)
Usable(c) == conns[c].st = "up" \/ conns[c].left = now
Part(c, key, to) ==
  /\ Usable(c) = TRUE /\ key \notin DOMAIN parts
  /\ \E s \in 1..Len(sends) : \E k \in 1..Len(sends[s].ph) :
       LET x == sends[s]
           o == conns[c].op
           g == x.got[k]
       IN /\ x.st = "busy" /\ x.ph[k] = to /\ Len(g) < x.n /\ o \in cx.match[to]
          /\ \A j \in 1..(k - 1) : x.ph[j] = to => Len(x.got[j]) \in {0, x.n}
          /\ sends' = [sends EXCEPT ![s].got[k] = Append(@, key)]
          /\ parts' = (key :> [s |-> s, k |-> k, c |-> c, t |-> now, res |-> "0", mid |-> "", rep |-> "", at |-> 0, rt |-> 0]) @@ parts
          /\ IF g = <<>>
             THEN /\ Preferred(c) = TRUE
                  /\ cx.limit => oper[o].tok >= cx.op[o].ev - 1
                  /\ oper' = IF cx.limit THEN [oper EXCEPT ![o].tok = Max(0, @ - cx.op[o].ev)] ELSE oper
                  /\ conns' = [conns EXCEPT ![c] = [Said(@) EXCEPT !.uses = Append(@, now)]]
             ELSE parts[g[1]].c = c /\ conns' = [conns EXCEPT ![c] = Said(@)] /\ UNCHANGED oper
  /\ UNCHANGED <<cx, now, closed, byMid, early, handed>>
(* The call returns: every message is out, or there was a reason to drop it.   *)
Back(s, qid) ==
  /\ sends[s].st = "busy"
  /\ IF sends[s].ph = <<>> THEN qid = "0" ELSE qid # "0" /\ \A j \in 1..Len(sends) : sends[j].qid # qid
  /\ LET x == sends[s]
         can(k) == {o \in cx.match[x.ph[k]] : cx.op[o].conf}
         excuse(o) == closed # 0 \/ oper[o].empty >= x.t \/ oper[o].since >= x.t
         dropped == {k \in 1..Len(x.ph) : x.got[k] = <<>> /\ can(k) # {} /\ \A o \in can(k) : ~excuse(o)}
     IN /\ (\A k \in 1..Len(x.ph) : LET g == x.got[k] IN g = <<>> \/ Len(g) = x.n \/ conns[parts[g[1]].c].st # "up") = TRUE
        /\ dropped # {} => cx.limit
        /\ oper' = [o \in Ops |-> [oper[o] EXCEPT !.starved = @ \/ \E k \in dropped : o \in can(k)]]
  /\ sends' = [sends EXCEPT ![s].st = "back", ![s].qid = qid, ![s].bt = now]
  /\ UNCHANGED <<cx, now, closed, conns, parts, byMid, early, handed>>

--------------------------------------------------------------------------------
(* Results.                                                                    *)
Results(s) == Flat(sends[s].got)
First(s) == parts[Results(s)[1]].t
Last(s) == LET r == Results(s) IN parts[r[Len(r)]].t
Fresh(t) == cx.hand = "no" \/ now <= t + cx.exp  \* still there
Stale(t) == cx.hand # "no" /\ now > t + cx.exp + cx.chk + 1  \* there was a check since it expired
Settled(s) == Stale(Last(s)) /\ now > sends[s].bt + cx.chk + 1
Show(key) == LET p == parts[key] IN [qid |-> sends[p.s].qid, to |-> sends[p.s].ph[p.k], key |-> key, res |-> p.res, mid |-> p.mid, rep |-> p.rep, st |-> p.t, at |-> p.at, rt |-> p.rt]

(* The gateway answers, and reports.                                           *)
Answer(key, res, mid) ==
  /\ IF key \notin DOMAIN parts THEN UNCHANGED <<parts, byMid, early>>
     ELSE \/ /\ ~Stale(parts[key].t)
             /\ \/ /\ (mid \notin DOMAIN early \/ ~Fresh(early[mid].t)) = TRUE
                   /\ parts' = [parts EXCEPT ![key].res = res, ![key].mid = mid, ![key].at = now]
                \/ /\ mid \in DOMAIN early /\ ~Stale(early[mid].t)
                   /\ parts' = [parts EXCEPT ![key].res = res, ![key].mid = mid, ![key].at = now, ![key].rep = early[mid].rep, ![key].rt = early[mid].t]
             /\ byMid' = (mid :> key) @@ byMid
             /\ early' = [m \in DOMAIN early \ {mid} |-> early[m]]
          \/ ~Fresh(parts[key].t) /\ UNCHANGED <<parts, byMid, early>>
  /\ UNCHANGED <<cx, now, closed, oper, conns, sends, handed>>
Report(mid, rep) ==
  /\ IF mid \notin DOMAIN byMid
     THEN early' = (mid :> [rep |-> rep, t |-> now]) @@ early /\ UNCHANGED parts
     ELSE /\ UNCHANGED early
          /\ LET k == byMid[mid] IN
             \/ ~Stale(parts[k].t) /\ parts' = [parts EXCEPT ![k].rep = rep, ![k].rt = now]
             \/ ~Fresh(parts[k].t) /\ UNCHANGED parts
  /\ UNCHANGED <<cx, now, closed, oper, conns, sends, byMid, handed>>

(* The user asks.                                                              *)
Query(qid, got) ==
  /\ LET S == {s \in 1..Len(sends) : sends[s].st = "back" /\ sends[s].qid = qid /\ qid # "0"} IN
     IF S = {} THEN got = <<>>
     ELSE LET s == CHOOSE x \in S : TRUE
              r == Results(s)
              all == [k \in 1..Len(r) |-> Show(r[k])]
          IN IF r = <<>> THEN got = <<>>
             ELSE /\ (got = <<>> \/ got = all) = TRUE
                  /\ Fresh(First(s)) => got = all
                  /\ Settled(s) => got = <<>>
                  /\ got = <<>> /\ cx.hand = "yes" => Range(r) \subseteq handed
  /\ UNCHANGED pvars
(* Expired results are handed over, each once and as they are.                 *)
Batch(got) ==
  /\ cx.hand = "yes"
  /\ (\A k \in 1..Len(got) : LET key == got[k].key IN
        /\ key \in DOMAIN parts /\ key \notin handed /\ got[k] = Show(key)
        /\ ~Fresh(First(parts[key].s))) = TRUE
  /\ Cardinality({got[k].key : k \in 1..Len(got)}) = Len(got)
  /\ handed' = handed \cup {got[k].key : k \in 1..Len(got)}
  /\ UNCHANGED <<cx, now, closed, oper, conns, sends, parts, byMid, early>>

--------------------------------------------------------------------------------
(* What has to have happened before time goes on.                              *)
AllHanded == cx.hand = "yes" =>
  \A s \in 1..Len(sends) : sends[s].st = "back" /\ Results(s) # <<>> /\ Settled(s) => Range(Results(s)) \subseteq handed
Waiting(s) == \E k \in 1..Len(sends[s].ph) : sends[s].got[k] = <<>> /\ \E o \in cx.match[sends[s].ph[k]] : Open(o) = {} \/ oper[o].empty + 2000 + cx.slow >= now
Due ==
  /\ \A o \in Ops : oper[o].starved => oper[o].tok <= cx.op[o].ev
  /\ cx.slow = 0 => \A c \in 1..Len(conns) : conns[c].st \notin {"down", "bad"}
  /\ closed # 0 /\ (cx.slow = 0 \/ now > closed + (2 * cx.slow)) => \A c \in 1..Len(conns) : conns[c].st = "gone"
  /\ closed = 0 => \A o \in Ops : oper[o].made # 0 /\ oper[o].mode = "accept" /\ now > oper[o].since + Bound(o) => Full(o)
  /\ \A s \in 1..Len(sends) : sends[s].st = "busy" => IF closed # 0 THEN now <= closed + 100 + cx.slow ELSE Waiting(s)
  /\ AllHanded
  /\ closed = 0 => \A c \in 1..Len(conns) : LET x == conns[c]
                                               o == x.op IN
       x.st = "up" /\ cx.op[o].beats /\ Full(o) /\ oper[o].mode = "accept"
         => now <= Max(Max(x.act[2], x.beat), oper[o].since + Bound(o)) + Idle + cx.op[o].tick + 2
Advance(t) ==
  /\ t > now /\ Due /\ now' = t
  /\ oper' = [o \in Ops |-> [oper[o] EXCEPT
       !.tok = Min(cx.op[o].win * cx.op[o].ev, @ + (Min(t - now, 1000000) * 1000)),
       !.starved = FALSE,
       !.empty = IF Open(o) = {} THEN t ELSE @]]
  /\ UNCHANGED <<cx, closed, conns, sends, parts, byMid, early, handed>>
(* When everything expired, nothing is kept.                                   *)
Empty(seqs, mids) ==
  /\ cx.hand # "no" /\ (\A k \in DOMAIN parts : Stale(parts[k].t)) => seqs = 0 /\ mids = 0
  /\ UNCHANGED pvars
================================================================================
