------------------------------- MODULE EventsMC -------------------------------
(* Small instance of Events with concurrent callers, and an invariant view of  *)
(* what the registry promises.  BREAK = "race" makes registering look first    *)
(* and store later, "stale" lets a deleted handler still be found.             *)
EXTENDS Events

CONSTANTS PROCS, KEYS, CALLS, BREAK, HIST
VARIABLES n,          \* calls begun so far
          acc,        \* registrations that took effect: <<name, handler>>
          gone,       \* names deleted (as often as the deletion hit one): sequence
          cur,        \* process -> call in progress
          log         \* the calls, for HIST > 0
mcvars == <<evars, n, acc, gone, cur, log>>

P == "p_"
Ids == {"o1", "o2", "o3", "o4", "o5", "o6"}
IdOf(x) == "o" \o ToString(x)
Calls(x) == {[op |-> "register", p |-> P, k |-> k, h |-> <<"h" \o ToString(x)>>, a |-> <<>>] : k \in KEYS}
            \cup {[op |-> o, p |-> P, k |-> k, h |-> <<>>, a |-> IF o = "call" THEN <<"a" \o ToString(x)>> ELSE <<>>] : o \in {"get", "delete", "call"}, k \in KEYS}
            \cup {[op |-> "fuzzy", p |-> P, k |-> "", h |-> <<>>, a |-> <<>>]}

Init == /\ EInit /\ n = 0 /\ acc = {} /\ gone = <<>> /\ cur = [p \in PROCS |-> ""] /\ log = <<>>

Start(p) == /\ cur[p] = "" /\ n < CALLS /\ n' = n + 1 /\ cur' = [cur EXCEPT ![p] = IdOf(n + 1)]
            /\ \E c \in Calls(n + 1) : Begin(IdOf(n + 1), c) /\ log' = IF HIST > 0 THEN Append(log, c.op \o ":" \o c.k) ELSE log
            /\ UNCHANGED <<acc, gone>>
(* registering in two steps, as a defective registry would *)
Look(id) == LET o == ops[id] IN
  /\ BREAK = "race" /\ o.c.op = "register" /\ o.st = "begun"
  /\ Set(id, [o EXCEPT !.st = IF Full(o.c.p, o.c.k) \in DOMAIN reg THEN "done" ELSE "free"])
  /\ UNCHANGED <<reg, sig, acc, gone>>
Store(id) == LET o == ops[id] IN
  /\ o.st = "free"
  /\ reg' = [k \in DOMAIN reg \cup {Full(o.c.p, o.c.k)} |-> IF k = Full(o.c.p, o.c.k) THEN o.c.h ELSE reg[k]]
  /\ Set(id, [o EXCEPT !.st = "done", !.res = TRUE])
  /\ acc' = acc \cup {<<Full(o.c.p, o.c.k), o.c.h>>}
  /\ UNCHANGED <<sig, gone>>
Step(p) == LET id == cur[p] IN
  /\ id # ""
  /\ \/ BREAK # "race" /\ Register(id) /\ UNCHANGED gone
        /\ acc' = IF ops'[id].res THEN acc \cup {<<Full(ops[id].c.p, ops[id].c.k), ops[id].c.h>>} ELSE acc
     \/ Look(id) \/ Store(id)
     \/ (Get(id) \/ Fire(id) \/ Visit(id)) /\ UNCHANGED <<acc, gone>>
     \/ IF BREAK = "stale" THEN ops[id].c.op = "delete" /\ ops[id].st = "begun" /\ Set(id, [ops[id] EXCEPT !.st = "done"]) /\ UNCHANGED <<reg, sig, acc>>
                                /\ gone' = Append(gone, Full(ops[id].c.p, ops[id].c.k))
        ELSE Delete(id) /\ UNCHANGED acc
             /\ gone' = IF Full(ops[id].c.p, ops[id].c.k) \in DOMAIN reg THEN Append(gone, Full(ops[id].c.p, ops[id].c.k)) ELSE gone
     \/ ops[id].todo # <<>> /\ Run(id, Head(ops[id].todo), ops[id].c.a) /\ UNCHANGED <<acc, gone>>
  /\ UNCHANGED <<n, cur, log>>
Finish(p) == /\ cur[p] # "" /\ (\E r \in BOOLEAN : End(cur[p], r)) /\ cur' = [cur EXCEPT ![p] = ""] /\ UNCHANGED <<n, acc, gone, log>>
Next == \E p \in PROCS : Start(p) \/ Step(p) \/ Finish(p)
Spec == Init /\ [][Next]_mcvars

(* One handler more was accepted than deleted, exactly where one is there.     *)
One == \A k \in {Full(P, x) : x \in KEYS} :
  Cardinality({a \in acc : a[1] = k}) = Cardinality({j \in 1..Len(gone) : gone[j] = k}) + (IF k \in DOMAIN reg THEN 1 ELSE 0)
(* What is there was accepted, and what runs was accepted under its name.      *)
Known == /\ \A k \in DOMAIN reg : <<k, reg[k]>> \in acc
         /\ \A id \in DOMAIN ops : \A j \in 1..Len(ops[id].todo) : \E a \in acc : a[2] = <<ops[id].todo[j]>> /\ (ops[id].c.op = "call" => a[1] = Full(P, ops[id].c.k))
(* Firing a prefix never forgets a name that was there throughout.             *)
Emit == (HIST > 0 /\ n = CALLS /\ \A p \in PROCS : cur[p] = "") => PrintT("OPS " \o ToString(log))
================================================================================
