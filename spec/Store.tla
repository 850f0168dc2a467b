-------------------------------- MODULE Store ---------------------------------
(* The account store (package auth, files) and the copies handed to sessions.  *)
(* A directory of files, one account each; loads read the directory, and from  *)
(* some moment of the load on lookups see exactly what it read.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES disk,      \* file name (octets) -> [st, c]: "good", "bad" (not an account), "odd" (not a plain file: may be read or not)
          there,     \* the directory can be read
          cache,     \* account key -> the admissible answers (each <<>> or <<account>>)
          load,      \* "no", "running" (not seen yet), "seen"
          next,      \* what the running load publishes
          asks,      \* lookups in progress -> admissible answers
          held       \* copies handed out
svars == <<disk, there, cache, load, next, asks, held>>

(* -- names: isp_id.yaml or isp_id.yml, the protocol in any letter case --------- *)
Lower(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Stem(f) == IF Ends(f, <<46, 121, 97, 109, 108>>) THEN SubSeq(f, 1, Len(f) - 5)
           ELSE IF Ends(f, <<46, 121, 109, 108>>) THEN SubSeq(f, 1, Len(f) - 4) ELSE <<>>
Line(s) == LET u == {k \in 1..Len(s) : s[k] = 95} IN IF u = {} THEN 0 ELSE CHOOSE k \in u : \A j \in u : k <= j
IsAccount(f) == Line(Stem(f)) > 1
Key(isp, cid) == Lower(isp) \o <<95>> \o cid
KeyOf(f) == LET s == Stem(f)
                l == Line(s) IN Key(SubSeq(s, 1, l - 1), SubSeq(s, l + 1, Len(s)))

(* -- accounts ---------------------------------------------------------------- *)
Texts == {"ClientId", "LoginName", "SharedSecret", "SmsDisplayNo", "ServiceId", "FeeTerminalId", "FeeType", "FeeCode", "FixedFee", "LinkId"}
Numbers == {"Version", "NeedReport", "DefaultMsgLevel", "FeeUserType", "FeeTerminalType", "MtValidDuration", "MaxConns", "MtWindowSize", "Throughput"}
(* the account a file describes: what it does not mention is empty; the        *)
(* protocol comes from the file's name *)
Account(f, c) == [n \in Texts \cup Numbers \cup {"ISP"} |->
                    IF n = "ISP" THEN SubSeq(KeyOf(f), 1, Line(KeyOf(f)) - 1)
                    ELSE IF n \in DOMAIN c THEN c[n] ELSE IF n \in Texts THEN <<>> ELSE <<48>>]
None == <<>>
Answers(cc, k) == IF k \in DOMAIN cc THEN cc[k] ELSE {None}

(* What a load of the directory d publishes when old was published before: a   *)
(* file that cannot be understood may leave the account as it was.             *)
ReadFile(d, f, old) == CASE d[f].st = "good" -> {<<Account(f, d[f].c)>>}
                         [] d[f].st = "odd" -> {<<Account(f, d[f].c)>>, None} \cup Answers(old, KeyOf(f))
                         [] OTHER -> {None} \cup Answers(old, KeyOf(f))
Load(d, old) == LET fs == {f \in DOMAIN d : IsAccount(f)}
                IN [k \in {KeyOf(f) : f \in fs} |-> UNION {ReadFile(d, f, old) : f \in {g \in fs : KeyOf(g) = k}}]

SInit == disk = <<>> /\ there = TRUE /\ cache = <<>> /\ load = "no" /\ next = <<>> /\ asks = <<>> /\ held = <<>>

Put(f, st, c) == disk' = (f :> [st |-> st, c |-> c]) @@ disk /\ UNCHANGED <<there, cache, load, next, asks, held>>
Remove(f) == disk' = [x \in DOMAIN disk \ {f} |-> disk[x]] /\ UNCHANGED <<there, cache, load, next, asks, held>>
Dir(b) == there' = b /\ UNCHANGED <<disk, cache, load, next, asks, held>>

Begin == /\ load = "no" /\ load' = "running"
         /\ next' = IF there THEN Load(disk, cache) ELSE cache
         /\ UNCHANGED <<disk, there, cache, asks, held>>
Switch == /\ load = "running" /\ load' = "seen"
          /\ cache' = next
          /\ asks' = [n \in DOMAIN asks |-> [asks[n] EXCEPT !.ok = @ \cup Answers(next, asks[n].key)]]
          /\ UNCHANGED <<disk, there, next, held>>
EndLoad == load = "seen" /\ load' = "no" /\ UNCHANGED <<disk, there, cache, next, asks, held>>

Ask(n, isp, cid) == /\ n \notin DOMAIN asks
                    /\ asks' = (n :> [key |-> Key(isp, cid), ok |-> Answers(cache, Key(isp, cid))]) @@ asks
                    /\ UNCHANGED <<disk, there, cache, load, next, held>>
Answer(n, got) == /\ got \in asks[n].ok
                  /\ asks' = [m \in DOMAIN asks \ {n} |-> asks[m]]
                  /\ UNCHANGED <<disk, there, cache, load, next, held>>
(* A copy is taken, and stays what it was.                                     *)
Hold(n, got, h) == /\ got \in asks[n].ok
                   /\ asks' = [m \in DOMAIN asks \ {n} |-> asks[m]]
                   /\ held' = (h :> got) @@ held
                   /\ UNCHANGED <<disk, there, cache, load, next>>
Held(h, got) == held[h] = got /\ UNCHANGED svars
(* Its holder changes it: nobody else notices.                                 *)
Spoil(h, got) == held' = [held EXCEPT ![h] = got] /\ UNCHANGED <<disk, there, cache, load, next, asks>>
================================================================================
