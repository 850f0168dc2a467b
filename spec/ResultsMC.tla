------------------------------- MODULE ResultsMC ------------------------------
(* The algorithm by which the client keeps its results, step by step: callers   *)
(* register and write the parts of their messages, receivers take answers and   *)
(* reports in any order, a ticker removes and hands over what expired.          *)
(* BREAK: "late": a part is registered after it was written; "lost": a report   *)
(* before its answer is forgotten; "again": what was handed over stays;         *)
(* "keep": the table of message ids is not cleaned; "first": only the first     *)
(* part of an expired message leaves the table of sequences.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS CALLERS, PARTS, EXP, TIME, BREAK, HIST
VARIABLES clock, pc, k, bt,         \* callers: where they are, parts begun, when they were back
          seqs, mids, early,     \* the tables: parts known by sequence, by message id; reports waiting (with their time)
          gate,                  \* part -> what the gateway knows: [w: written, a: answered, r: reported]
          sent,                  \* part -> when it was registered
          res, rep,              \* part -> filled in
          owed,                  \* what must be filled in: {<<"res" or "rep", part>>}
          cache, handed,         \* calls whose results can be queried; parts handed over, in order
          tick,                  \* the ticker's next step; "no" when it waits
          log
vars == <<clock, pc, k, bt, seqs, mids, early, gate, sent, res, rep, owed, cache, handed, tick, log>>

C == 1..CALLERS
P == C \X (1..PARTS)
Init == /\ clock = 0 /\ pc = [c \in C |-> "idle"] /\ k = [c \in C |-> 0] /\ bt = [c \in C |-> 0] /\ seqs = {} /\ mids = {} /\ early = <<>>
        /\ gate = [p \in P |-> [w |-> FALSE, a |-> FALSE, r |-> FALSE]] /\ sent = [p \in P |-> 0]
        /\ res = [p \in P |-> FALSE] /\ rep = [p \in P |-> FALSE] /\ owed = {} /\ cache = {} /\ handed = <<>> /\ tick = "no" /\ log = <<>>
L(x) == log' = IF HIST THEN Append(log, x) ELSE log
Old(p) == sent[p] + EXP < clock

(* A caller.                                                                   *)
Cur(c) == <<c, k[c]>>
Caller(c) ==
  /\ \/ /\ pc[c] = "idle" /\ (HIST => \A d \in C : d < c => pc[d] = "back")
        /\ pc' = [pc EXCEPT ![c] = "make"] /\ L("s") /\ UNCHANGED <<k, bt, seqs, gate, sent, cache>>
     \/ /\ pc[c] = "make" /\ k[c] < PARTS /\ k' = [k EXCEPT ![c] = @ + 1]
        /\ LET p == <<c, k[c] + 1>> IN   \* a bulleted body ends with its bullets
           /\ sent' = [sent EXCEPT ![p] = clock]
           /\ IF BREAK = "late" THEN gate' = [gate EXCEPT ![p].w = TRUE] /\ UNCHANGED seqs ELSE seqs' = seqs \cup {p} /\ UNCHANGED gate
        /\ pc' = [pc EXCEPT ![c] = "made"] /\ UNCHANGED <<bt, cache, log>>
     \/ /\ pc[c] = "made"
        /\ (IF BREAK = "late" THEN seqs' = seqs \cup {Cur(c)} /\ UNCHANGED gate ELSE gate' = [gate EXCEPT ![Cur(c)].w = TRUE] /\ UNCHANGED seqs)
        /\ pc' = [pc EXCEPT ![c] = "make"] /\ UNCHANGED <<k, bt, sent, cache, log>>
     \/ /\ pc[c] = "make" /\ k[c] = PARTS /\ cache' = cache \cup {c} /\ pc' = [pc EXCEPT ![c] = "back"] /\ bt' = [bt EXCEPT ![c] = clock] /\ UNCHANGED <<k, seqs, gate, sent, log>>
  /\ UNCHANGED <<clock, mids, early, res, rep, owed, handed, tick>>

(* The gateway answers a part and reports on it, a receiver takes it.          *)
Name(p) == ToString(((p[1] - 1) * PARTS) + p[2])
Settled == HIST => \A c \in C : pc[c] \in {"idle", "back"}
Answer(p) ==
  /\ gate[p].w /\ ~gate[p].a /\ Settled /\ gate' = [gate EXCEPT ![p].a = TRUE] /\ L("a" \o Name(p))
  /\ owed' = owed \cup (IF Old(p) THEN {} ELSE {<<"res", p>>} \cup (IF gate[p].r /\ (p \notin DOMAIN early => ~rep[p]) /\ (p \in DOMAIN early \/ BREAK = "lost") THEN {<<"rep", p>>} ELSE {}))
  /\ IF p \in seqs
     THEN /\ res' = [res EXCEPT ![p] = TRUE] /\ mids' = mids \cup {p}
          /\ rep' = IF p \in DOMAIN early THEN [rep EXCEPT ![p] = TRUE] ELSE rep
          /\ early' = [q \in DOMAIN early \ {p} |-> early[q]]
     ELSE UNCHANGED <<res, mids, rep, early>>
  /\ UNCHANGED <<clock, pc, k, bt, seqs, sent, cache, handed, tick>>
Report(p) ==
  /\ gate[p].w /\ ~gate[p].r /\ Settled /\ gate' = [gate EXCEPT ![p].r = TRUE] /\ L("r" \o Name(p))
  /\ owed' = owed \cup (IF gate[p].a /\ ~Old(p) THEN {<<"rep", p>>} ELSE {})
  /\ IF p \in mids THEN rep' = [rep EXCEPT ![p] = TRUE] /\ UNCHANGED early
     ELSE /\ early' = (IF BREAK = "lost" THEN early ELSE (p :> clock) @@ early) /\ UNCHANGED rep
  /\ UNCHANGED <<clock, pc, k, bt, seqs, mids, sent, res, cache, handed, tick>>

(* The ticker, once per unit of time.                                          *)
Results(c) == [j \in 1..PARTS |-> <<c, j>>]
Ticker ==
  /\ \/ tick = "query" /\ tick' = "seqs"
        /\ \/ \E c \in {x \in cache : Old(<<x, 1>>)} :      \* they leave one by one
                /\ handed' = handed \o Results(c) /\ cache' = (IF BREAK = "again" /\ Len(handed) < 3 THEN cache ELSE cache \ {c})
                /\ (\E d \in cache \ {c} : Old(<<d, 1>>)) = FALSE
           \/ (\A c \in cache : ~Old(<<c, 1>>)) /\ UNCHANGED <<handed, cache>>
        /\ UNCHANGED <<seqs, mids, early>>
     \/ tick = "query" /\ Cardinality({x \in cache : Old(<<x, 1>>)}) > 1
        /\ \E c \in {x \in cache : Old(<<x, 1>>)} : handed' = handed \o Results(c) /\ cache' = cache \ {c}
        /\ UNCHANGED <<tick, seqs, mids, early>>
     \/ tick = "seqs" /\ tick' = "mids" /\ seqs' = (IF BREAK = "first" THEN {p \in seqs : ~Old(p) \/ p[2] > 1} ELSE {p \in seqs : ~Old(p)}) /\ UNCHANGED <<mids, early, cache, handed>>
     \/ tick = "mids" /\ tick' = "no" /\ mids' = (IF BREAK = "keep" THEN mids ELSE {p \in mids : ~Old(p)})
        /\ early' = [p \in {q \in DOMAIN early : ~(early[q] + EXP < clock)} |-> early[p]] /\ UNCHANGED <<seqs, cache, handed>>
  /\ UNCHANGED <<clock, pc, k, bt, gate, sent, res, rep, owed, log>>
Time == /\ clock < TIME /\ tick = "no" /\ Settled
        /\ clock' = clock + 1 /\ tick' = "query" /\ L("c")
        /\ UNCHANGED <<pc, k, bt, seqs, mids, early, gate, sent, res, rep, owed, cache, handed>>
Next == Time \/ Ticker \/ ((HIST => tick = "no") /\ ( \E c \in C : Caller(c) \/ \E p \in P : Answer(p) \/ Report(p)))
Spec == Init /\ [][Next]_vars

(* What came in time is in its result.                                         *)
Told == \A x \in owed : IF x[1] = "res" THEN res[x[2]] ELSE rep[x[2]]
(* Nothing is made up.                                                         *)
Honest == \A p \in P : (res[p] => gate[p].a) /\ (rep[p] => gate[p].r)
Once == \A a, b \in 1..Len(handed) : handed[a] = handed[b] => a = b
Kept == \A c \in C : pc[c] = "back" => ((c \in cache) # (\E j \in 1..Len(handed) : handed[j][1] = c))
(* In the end nothing is left, and everything was handed over.                 *)
Gone == (tick = "no" /\ (\A c \in C : pc[c] = "back" /\ bt[c] < clock) /\ (\A p \in P : Old(p)) /\ \A p \in P : sent[p] + EXP + 1 < clock) =>
          cache = {} /\ seqs = {} /\ (\A c \in C : \A j \in 1..PARTS : \E x \in 1..Len(handed) : handed[x] = <<c, j>>) /\ (\A p \in mids : ~Old(p))
Show == (HIST /\ tick = "no" /\ Settled /\ log # <<>>) => PrintT("RUN " \o ToString(log))
================================================================================
