------------------------------- MODULE StoreMC --------------------------------
(* The store's algorithm on small directories: a load reads file after file    *)
(* into a new table and then publishes it, while lookups go on.  Invariant     *)
(* Seen: lookups see nothing but whole snapshots.  BREAK = "piecemeal" writes  *)
(* into the live table, "merge" keeps what was there.  HIST > 0 writes down    *)
(* the sequences of directory changes and loads as stimuli.                    *)
EXTENDS Store

CONSTANTS STEPS, BREAK, HIST
VARIABLES tab,       \* the live table of the algorithm: key -> answer
          work,      \* the table being built
          todo,      \* files still to be read
          n, log
mvars == <<svars, tab, work, todo, n, log>>

FA == <<99, 95, 65, 46, 121, 109, 108>>                     (* c_A.yml *)
FB == <<67, 95, 98, 46, 121, 97, 109, 108>>                 (* C_b.yaml *)
Files == {FA, FB}
C(x) == [MaxConns |-> <<x>>]
Note(s) == log' = IF HIST > 0 THEN Append(log, s) ELSE log
Name(f) == IF f = FA THEN "A" ELSE "B"

Init == SInit /\ tab = <<>> /\ work = <<>> /\ todo = {} /\ n = 0 /\ log = <<>>
Change == /\ load = "no" /\ n < STEPS /\ n' = n + 1 /\ UNCHANGED <<tab, work, todo>>
          /\ \/ \E f \in Files, x \in {49, 50} : Put(f, "good", C(x)) /\ Note("put" \o Name(f) \o ToString(x))
             \/ \E f \in Files : Put(f, "bad", <<>>) /\ Note("bad" \o Name(f))
             \/ \E f \in Files \cap DOMAIN disk : Remove(f) /\ Note("rm" \o Name(f))
Start == /\ n < STEPS /\ n' = n + 1 /\ Begin /\ Note("load")
         /\ work' = IF BREAK = "" THEN <<>> ELSE tab
         /\ todo' = {f \in DOMAIN disk : IsAccount(f)}
         /\ tab' = tab
ReadOne == /\ load = "running" /\ todo # {}
           /\ \E f \in todo :
                LET k == KeyOf(f)
                    v == IF disk[f].st = "good" THEN <<Account(f, disk[f].c)>> ELSE IF k \in DOMAIN tab THEN tab[k] ELSE None IN
                /\ todo' = todo \ {f}
                /\ work' = (k :> v) @@ work
                /\ tab' = IF BREAK = "piecemeal" THEN (k :> v) @@ tab ELSE tab
           /\ UNCHANGED <<svars, n, log>>
Publish == load = "running" /\ todo = {} /\ Switch /\ tab' = work /\ UNCHANGED <<work, todo, n, log>>
Finish == EndLoad /\ UNCHANGED <<tab, work, todo, n, log>>
Next == Change \/ Start \/ ReadOne \/ Publish \/ Finish
Spec == Init /\ [][Next]_mvars

Keys == {KeyOf(f) : f \in Files}
Seen == \A k \in Keys : (IF k \in DOMAIN tab THEN tab[k] ELSE None) \in Answers(cache, k)
Emit == (HIST > 0 /\ n = STEPS /\ load = "no") => PrintT("OPS " \o ToString(log))
================================================================================
