-------------------------------- MODULE Events --------------------------------
(* The registry of named events (package event_manager): concurrent callers    *)
(* register, look up, fire and delete handlers by name, and fire all names     *)
(* with a prefix.  Every call takes effect at one moment between its beginning *)
(* and its end; firing a prefix visits its names one by one.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES reg,       \* name -> handlers, in order
          ops,       \* call -> what it is doing
          sig        \* cancel channels handed out: TRUE if a signal waits in it
evars == <<reg, ops, sig>>

Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Full(p, k) == IF Starts(p, k) THEN k ELSE p \o k
Hooks == "graceful_shutdown_hooker_"
Matching(p) == {k \in DOMAIN reg : Starts(p, k)}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

EInit == reg = <<>> /\ ops = <<>> /\ sig = <<>>

(* A call begins.  c: [op, p, k, h, a] operation, prefix, name, handlers, arguments *)
Begin(id, c) ==
  /\ id \notin DOMAIN ops
  /\ ops' = (id :> [c |-> c, st |-> "begun", res |-> FALSE, todo |-> <<>>, seen |-> {},
                    must |-> IF c.op = "fuzzy" THEN Matching(c.p) ELSE {}]) @@ ops
  /\ UNCHANGED <<reg, sig>>

Set(id, r) == ops' = [ops EXCEPT ![id] = r]

Register(id) ==
  LET o == ops[id]
      k == Full(o.c.p, o.c.k)
      (* the channel variant adds a handler of its own *)
      hs == IF o.c.op = "hookchan" THEN Append(o.c.h, "signal " \o id) ELSE o.c.h
      ok == k \notin DOMAIN reg /\ hs # <<>> IN
  /\ o.c.op \in {"register", "hookchan"} /\ o.st = "begun"
  /\ reg' = IF ok THEN (k :> hs) @@ reg ELSE reg
  /\ sig' = IF ok /\ o.c.op = "hookchan" THEN (id :> FALSE) @@ sig ELSE sig
  /\ Set(id, [o EXCEPT !.st = "done", !.res = ok])

Get(id) ==
  LET o == ops[id] IN
  /\ o.c.op = "get" /\ o.st = "begun"
  /\ Set(id, [o EXCEPT !.st = "done", !.res = Full(o.c.p, o.c.k) \in DOMAIN reg])
  /\ UNCHANGED <<reg, sig>>

Delete(id) ==
  LET o == ops[id]
      k == Full(o.c.p, o.c.k) IN
  /\ o.c.op = "delete" /\ o.st = "begun"
  /\ reg' = Without(reg, k)
  (* a prefix being fired need not come to a name that went meanwhile *)
  /\ ops' = [x \in DOMAIN ops |-> IF x = id THEN [o EXCEPT !.st = "done"] ELSE [ops[x] EXCEPT !.must = @ \ {k}]]
  /\ UNCHANGED sig

(* Firing one name: the handlers registered at that moment will run.          *)
Fire(id) ==
  LET o == ops[id]
      k == Full(o.c.p, o.c.k) IN
  /\ o.c.op = "call" /\ o.st = "begun"
  /\ Set(id, [o EXCEPT !.st = "done", !.todo = IF k \in DOMAIN reg THEN reg[k] ELSE <<>>])
  /\ UNCHANGED <<reg, sig>>

(* Firing a prefix: comes to each matching name at most once, in any order.   *)
Visit(id) ==
  LET o == ops[id] IN
  /\ o.c.op = "fuzzy" /\ o.st = "begun" /\ o.todo = <<>>
  /\ \E k \in Matching(o.c.p) \ o.seen :
       Set(id, [o EXCEPT !.todo = reg[k], !.seen = @ \cup {k}])
  /\ UNCHANGED <<reg, sig>>

(* A handler runs, with the arguments of the call.                            *)
Run(id, h, a) ==
  LET o == ops[id] IN
  /\ o.todo # <<>> /\ Head(o.todo) = h /\ a = o.c.a
  /\ Set(id, [o EXCEPT !.todo = Tail(@)])
  /\ UNCHANGED <<reg, sig>>

(* The handler of a cancel channel: it leaves one signal, however often.      *)
Signal(id) ==
  LET o == ops[id] IN
  /\ o.todo # <<>>
  /\ \E x \in DOMAIN sig : /\ Head(o.todo) = "signal " \o x
                           /\ sig' = [sig EXCEPT ![x] = TRUE]
  /\ Set(id, [o EXCEPT !.todo = Tail(@)])
  /\ UNCHANGED reg

End(id, r) ==
  LET o == ops[id] IN
  /\ o.todo = <<>>
  /\ IF o.c.op = "fuzzy" THEN o.must \subseteq o.seen ELSE o.st = "done"
  /\ o.c.op \in {"register", "hookchan", "get"} => r = o.res
  /\ ops' = Without(ops, id)
  /\ UNCHANGED <<reg, sig>>

(* The holder of a cancel channel looks for the signal.                       *)
Poll(x, r) ==
  /\ x \in DOMAIN sig /\ r = sig[x]
  /\ sig' = [sig EXCEPT ![x] = FALSE]
  /\ UNCHANGED <<reg, ops>>

Silent == \E id \in DOMAIN ops : Register(id) \/ Get(id) \/ Delete(id) \/ Fire(id) \/ Visit(id) \/ Signal(id)
================================================================================
