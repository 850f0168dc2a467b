--------------------------------- MODULE PoolMC --------------------------------
(* The algorithm of one pool of sessions: it is created by whoever needs it     *)
(* first, refilled by a ticker, drawn from by callers, closed at the shutdown.  *)
(* BREAK: "dial": a connection opened during the shutdown joins the pool;       *)
(* "head": callers look at the first session only; "two": the pool is created   *)
(* without a lock; "wait": callers wait on after the shutdown; "over": the      *)
(* ticker counts before it removes the dead; "leave": the shutdown forgets one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MAX, CALLERS, EVENTS, BREAK, HIST
VARIABLES pool,     \* sequence of sessions in the pool (numbers)
          up,       \* the connections that are open
          made,     \* pools created
          closed, gate, ev, nextc,
          tpc, dialed,          \* the ticker; what it just dialled
          cpc, got, creating,   \* callers; what they got; who is creating the pool
          log
vars == <<pool, up, made, closed, gate, ev, nextc, tpc, dialed, cpc, got, creating, log>>
C == 1..CALLERS
L(x) == log' = IF HIST THEN Append(log, x) ELSE log

Init == /\ pool = <<>> /\ up = {} /\ made = 0 /\ closed = FALSE /\ gate = TRUE /\ ev = 0 /\ nextc = 1 /\ tpc = "none" /\ dialed = 0
        /\ cpc = [c \in C |-> "idle"] /\ got = [c \in C |-> 0] /\ creating = {} /\ log = <<>>

Healthy == SelectSeq(pool, LAMBDA x : x \in up)
Calm == HIST => tpc \in {"none", "wait", "sleep"} /\ \A c \in C : cpc[c] \in {"idle", "back"} \/ (cpc[c] = "peek" /\ Healthy = <<>> /\ ~closed)
Caller(c) ==
  /\ \/ cpc[c] = "idle" /\ Calm /\ (HIST => ev < EVENTS) /\ ev' = (IF HIST THEN ev + 1 ELSE ev) /\ L("s")
        /\ cpc' = [cpc EXCEPT ![c] = IF made = 0 THEN "create" ELSE "peek"] /\ UNCHANGED <<pool, up, made, nextc, tpc, got, creating>>
     \/ cpc[c] = "create" /\ (creating = {} \/ BREAK = "two")
        /\ (IF made > 0 /\ BREAK # "two" THEN cpc' = [cpc EXCEPT ![c] = "peek"] /\ UNCHANGED creating
            ELSE cpc' = [cpc EXCEPT ![c] = "creating"] /\ creating' = creating \cup {c})
        /\ UNCHANGED <<pool, up, made, nextc, tpc, got, log, ev>>
     \/ cpc[c] = "creating" /\ made' = made + 1 /\ creating' = creating \ {c} /\ cpc' = [cpc EXCEPT ![c] = "peek"] /\ tpc' = "wait"
        /\ (IF gate THEN pool' = <<nextc>> /\ up' = up \cup {nextc} /\ nextc' = nextc + 1 ELSE UNCHANGED <<pool, up, nextc>>)
        /\ UNCHANGED <<got, log, ev>>
     \/ cpc[c] = "peek"
        /\ (LET h == IF BREAK = "head" THEN (IF pool # <<>> /\ pool[1] \in up THEN pool ELSE <<>>) ELSE Healthy IN
           IF closed /\ BREAK # "wait" THEN got' = [got EXCEPT ![c] = 0] /\ cpc' = [cpc EXCEPT ![c] = "back"]
           ELSE h # <<>> /\ got' = [got EXCEPT ![c] = h[1]] /\ cpc' = [cpc EXCEPT ![c] = "back"])
        /\ UNCHANGED <<pool, up, made, nextc, tpc, creating, log, ev>>
     \/ cpc[c] = "back" /\ ~HIST /\ cpc' = [cpc EXCEPT ![c] = "idle"] /\ UNCHANGED <<pool, up, made, nextc, tpc, got, creating, log, ev>>
  /\ UNCHANGED <<closed, gate, dialed>>
(* The ticker: away with the dead, then new ones until the pool is full.       *)
Ticker ==
  /\ \/ tpc = "wait" /\ Calm /\ tpc' = "fill" /\ pool' = (IF BREAK = "over" THEN pool ELSE Healthy) /\ L("c") /\ UNCHANGED <<up, nextc, dialed>>
     \/ tpc = "fill" /\ ~closed /\ Len(pool) < MAX
        /\ (IF gate THEN dialed' = nextc /\ nextc' = nextc + 1 /\ tpc' = "add" /\ up' = up \cup {nextc} ELSE tpc' = "sleep" /\ UNCHANGED <<dialed, nextc, up>>)
        /\ UNCHANGED <<pool, log>>
     \/ tpc = "fill" /\ (closed \/ Len(pool) >= MAX) /\ tpc' = (IF closed THEN "over" ELSE "wait") /\ UNCHANGED <<pool, up, nextc, dialed, log>>
     \/ tpc = "add" /\ tpc' = "sleep"
        /\ (IF closed /\ BREAK # "dial" THEN up' = up \ {dialed} /\ UNCHANGED pool ELSE pool' = Append(pool, dialed) /\ UNCHANGED up)
        /\ UNCHANGED <<nextc, dialed, log>>
     \/ tpc = "sleep" /\ Calm /\ tpc' = "fill" /\ L("c") /\ UNCHANGED <<pool, up, nextc, dialed>>
  /\ UNCHANGED <<made, closed, gate, ev, cpc, got, creating>>
(* The world.                                                                  *)
Shutdown == /\ ~closed /\ made > 0 /\ creating = {} /\ Calm /\ closed' = TRUE /\ L("x")
            /\ up' = (IF BREAK = "leave" /\ pool # <<>> THEN up \ {pool[j] : j \in 1..(Len(pool) - 1)} ELSE up \ {pool[j] : j \in 1..Len(pool)})
            /\ UNCHANGED <<pool, made, gate, ev, nextc, tpc, dialed, cpc, got, creating>>
World == /\ ev < EVENTS /\ ev' = ev + 1 /\ Calm
         /\ \/ \E x \in up : up' = up \ {x} /\ L("d" \o ToString(Cardinality({y \in up : y < x}))) /\ UNCHANGED gate
            \/ gate' = ~gate /\ L(IF gate THEN "m0" ELSE "m1") /\ UNCHANGED up
         /\ UNCHANGED <<pool, made, closed, nextc, tpc, dialed, cpc, got, creating>>
Next == (\E c \in C : Caller(c)) \/ Ticker \/ Shutdown \/ World
Bound == nextc <= EVENTS + (2 * MAX) + 2
Fair == WF_vars(Ticker) /\ \A c \in C : WF_vars(cpc[c] # "idle" /\ Caller(c))
Spec == Init /\ [][Next]_vars /\ Fair

Cap == Cardinality(up) <= MAX
One == made <= 1
Live == \A c \in C : got[c] # 0 => got[c] < nextc
(* One healthy session is enough to send.                                      *)
Free == \A c \in C : (cpc[c] = "peek" /\ (Healthy # <<>> \/ closed)) => ENABLED Caller(c)
Shut == (closed /\ tpc \notin {"add"} /\ creating = {}) => up = {}
(* As long as the gateway accepts, the pool fills up, and callers come back.   *)
Fills == [](made > 0 /\ gate /\ ev = EVENTS => <>(closed \/ Cardinality(up) = MAX))
Returns == \A c \in C : [](cpc[c] = "peek" /\ gate /\ ev = EVENTS => <>(cpc[c] = "back"))
Ends == \A c \in C : [](cpc[c] = "peek" /\ closed => <>(cpc[c] = "back"))
Short == Len(log) <= 8
Show == (HIST /\ Calm /\ log # <<>> /\ (ev = EVENTS \/ closed)) => PrintT("RUN " \o ToString(log))
================================================================================
