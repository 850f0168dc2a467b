------------------------------ MODULE IdsAlgo -------------------------------
(* The generators' algorithms, with concurrent callers and a clock that      *)
(* moves by itself, in both directions where the kind allows it; checked     *)
(* against the promises of Ids (uniqueness, order).  One unit of the model's *)
(* clock holds CAP identifiers.  Behaviours of this module, with one draw    *)
(* standing for a share of the real capacity, are what the real generators   *)
(* are driven with (HIST # 0).                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS KIND,    \* "flake", "bcd", "ctr", "cyc"
          CAP,     \* identifiers per unit of time (flake, bcd), or in a cycle (ctr, cyc)
          PROCS, DRAWS, CLOCK, BACK,   \* callers, draws in total, clock 0..CLOCK, may the clock step back
          SAFE,    \* FALSE: the algorithm without its protection against the clock stepping back (negative control)
          LOCKED,  \* FALSE: without the mutex (negative control)
          HIST     \* length of the recorded behaviours, 0: none

VARIABLES clock, ts, sq, lock, pc, rd, low, top, issued, n, h
vars == <<clock, ts, sq, lock, pc, rd, low, top, issued, n, h>>

Init == /\ clock = CLOCK \div 2 /\ ts = -1 /\ sq = 0 /\ lock = 0
        /\ pc = [p \in PROCS |-> "idle"] /\ rd = [p \in PROCS |-> [t |-> 0, ts |-> -1, sq |-> 0]] /\ low = [p \in PROCS |-> -1]
        /\ top = -1 /\ issued = <<>> /\ n = 0 /\ h = <<>>

Rec(x) == h' = IF HIST = 0 THEN h ELSE Append(h, x)

Call(p) == /\ pc[p] = "idle" /\ n < DRAWS
           /\ n' = n + 1 /\ low' = [low EXCEPT ![p] = top]
           /\ pc' = [pc EXCEPT ![p] = "enter"]
           /\ Rec("draw")
           /\ UNCHANGED <<clock, ts, sq, lock, rd, top, issued>>

Enter(p) == /\ pc[p] = "enter" /\ (LOCKED => lock = 0)
            /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "read"]
            /\ UNCHANGED <<clock, ts, sq, rd, low, top, issued, n, h>>

Read(p) == /\ pc[p] = "read"
           /\ rd' = [rd EXCEPT ![p] = [t |-> clock, ts |-> ts, sq |-> sq]]
           /\ pc' = [pc EXCEPT ![p] = "step"]
           /\ UNCHANGED <<clock, ts, sq, lock, low, top, issued, n, h>>

\* values as numbers in the order the format compares them
Give(p, t, s) ==
  LET v == CASE KIND = "flake" -> t * CAP + s [] KIND = "bcd" -> t * CAP + s
             [] KIND = "ctr" -> t * CAP + s [] KIND = "cyc" -> s
  IN /\ ts' = t /\ sq' = s
     /\ issued' = Append(issued, [v |-> v, low |-> low[p]])
     /\ top' = IF v > top THEN v ELSE top
     /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "idle"]
     /\ rd' = [rd EXCEPT ![p] = [t |-> 0, ts |-> -1, sq |-> 0]]
     /\ UNCHANGED <<clock, low, n, h>>

Compute(p) ==
  /\ pc[p] = "step"
  /\ LET r == rd[p]
         s1 == (r.sq + 1) % CAP
         back == SAFE /\ r.t < r.ts
         t == IF back THEN r.ts ELSE r.t
     IN CASE KIND = "flake" ->
               IF t # r.ts THEN Give(p, t, 0)
               ELSE IF s1 # 0 THEN Give(p, t, s1)
               ELSE IF back THEN Give(p, r.ts + 1, 0)
               ELSE clock > r.ts /\ Give(p, clock, 0)       \* wait for the clock
          [] KIND = "bcd" -> Give(p, r.t, IF r.t = r.ts THEN s1 ELSE 0)
          [] KIND \in {"ctr", "cyc"} -> Give(p, r.t, s1)

Clock(d) == /\ clock + d \in 0..CLOCK /\ (d < 0 => BACK)
            /\ clock' = clock + d
            /\ Rec(IF d > 0 THEN "fwd" ELSE IF d = -1 THEN "back" ELSE "back2")
            /\ UNCHANGED <<ts, sq, lock, pc, rd, low, top, issued, n>>

Next == /\ (HIST # 0 => Len(h) < HIST)
        /\ \/ \E p \in PROCS : Call(p) \/ Enter(p) \/ Read(p) \/ Compute(p)
           \/ \E d \in {1, -1, -2} : Clock(d)
Spec == Init /\ [][Next]_vars

\* ---- the promises
InUnit(t) == Cardinality({k \in 1..Len(issued) : issued[k].v \div CAP = t})
Unique == \A j, k \in 1..Len(issued) : j < k /\ (KIND \in {"ctr", "cyc"} => k - j < CAP) => issued[j].v # issued[k].v
Order == KIND = "flake" => \A k \in 1..Len(issued) : issued[k].v > issued[k].low
Quiet == \A p \in PROCS : pc[p] = "idle"
\* recorded behaviours
Emit == (HIST # 0 /\ Len(h) = HIST /\ Quiet) => PrintT(h)
=============================================================================
