--------------------------------- MODULE BeatMC ---------------------------------
(* One session of the client's pool: how silence is noticed.  The pool looks at  *)
(* the session every TICK, and a caller may at any moment; the gateway and the   *)
(* user speak or not; the connection may stop carrying anything without anybody  *)
(* being told.  Written after session.go (HealthCheck, ActiveTest, touch) and    *)
(* session_factory.go (lruSort), with what BREAK takes away.                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS IDLE, TICK, TIME, BREAK, HIST
VARIABLES now, act, next, st, cut, beat, heard, from, log
vars == <<now, act, next, st, cut, beat, heard, from, log>>
(* act: the algorithm's activity time; heard: when something was truly said      *)
(* last; beat: time of the last heartbeat; st: "up", "closed"; from: of the cut  *)
Init == now = 0 /\ act = 0 /\ heard = 0 /\ next \in 1..TICK /\ st = "up" /\ cut = FALSE /\ beat = -1 /\ from = 0 /\ log = <<>>
Limit == IF BREAK = "long" THEN 2 * IDLE ELSE IDLE
(* a look: heartbeat if silent; its answer comes at once, or never *)
Look == /\ st = "up"
        /\ IF now > act + Limit \/ BREAK = "eager"
           THEN /\ beat' = now
                /\ IF cut THEN /\ st' = (IF BREAK = "deaf" THEN st ELSE "closed") /\ UNCHANGED <<act, heard>>
                   ELSE /\ UNCHANGED st
                        /\ \/ UNCHANGED <<act, heard>>
                           \/ heard' = now /\ act' = (IF BREAK = "touch" THEN act ELSE now)
           ELSE UNCHANGED <<act, heard, beat, st>>
Tick == now = next /\ next' = now + TICK /\ (IF st = "up" THEN Look ELSE UNCHANGED <<act, heard, beat, st>>) /\ UNCHANGED <<now, cut, from>>
Peek == st = "up" /\ Look /\ UNCHANGED <<now, next, cut, from>>
Speak == st = "up" /\ ~cut /\ heard' = now /\ act' = (IF BREAK = "touch" THEN act ELSE now) /\ UNCHANGED <<now, next, st, cut, beat, from>>
Cut == ~cut /\ cut' = TRUE /\ from' = now /\ UNCHANGED <<now, act, next, st, beat, heard>>
Time == now < TIME /\ now < next /\ now' = now + 1 /\ UNCHANGED <<act, next, st, cut, beat, heard, from>>
(* for generating behaviours: what the surroundings do, one thing at a time *)
Log(x) == log' = (IF HIST THEN Append(log, x) ELSE log)
Free == (~HIST \/ log = <<>> \/ log[Len(log)] = "t") = TRUE
Next == \/ Tick /\ UNCHANGED log
        \/ Free /\ Peek /\ Log("p")
        \/ Free /\ Speak /\ Log("s")
        \/ Free /\ Cut /\ Log("c")
        \/ Time /\ Log("t")
Show == now = TIME /\ log[Len(log)] = "t" => PrintT("RUN " \o ToString(log))
Spec == Init /\ [][Next]_vars

Max(a, b) == IF a < b THEN b ELSE a
(* after a minute of silence there is a heartbeat within one tick; none before *)
Asked == st = "up" => now <= Max(heard, beat) + IDLE + TICK + (IF now = next THEN 1 ELSE 0)
Spared == [][beat' # beat => now > heard + IDLE]_vars
(* a connection that carries nothing is given up *)
Found == cut /\ st = "up" => now <= Max(heard, from) + IDLE + TICK + (IF now = next THEN 1 ELSE 0)
================================================================================
