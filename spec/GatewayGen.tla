----------------------------- MODULE GatewayGen -----------------------------
(* Behaviours of GatewayMC as stimuli for the real server: what peers, the   *)
(* operator and the clock do is recorded in h and printed; the server part   *)
(* of the specification runs to quiescence in between (HOLD: at any time).   *)
EXTENDS GatewayMC, Json

CONSTANTS LEN, HOLD

VARIABLE h
gvars == <<mcvars, h>>

Rec(x) == h' = Append(h, x)

GInit == MCInit /\ h = <<>>

GPeers ==
  \E c \in CONNS :
    \/ /\ conn[c].ph = "none" /\ \A d \in CONNS : d < c => conn[d].ph # "none"
       /\ Opening(c) /\ Keep /\ Rec([op |-> "open", c |-> c])
    \/ Peer(c) /\ Keep /\ Rec([op |-> "peer", c |-> c])
    \/ n < NSEQ /\ \E k \in KINDS : Send(c, <<Packet(k, n)>>) /\ Rec([op |-> "data", c |-> c, pk |-> <<k>>])
    \/ PAIRS /\ n + 1 < NSEQ /\ \E k, l \in KINDS : Send(c, <<Packet(k, n), Packet(l, n + 1)>>)
                             /\ Rec([op |-> "data", c |-> c, pk |-> <<k, l>>])

GOther ==
  \/ /\ STORE
     /\ \E a \in ACCTS : \/ a \in DOMAIN accts /\ RemoveAcct(a) /\ Rec([op |-> "rm"])
                         \/ a \notin DOMAIN accts /\ AddAcct(a, Acct) /\ Rec([op |-> "add"])
     /\ Keep
  \/ Timer /\ Rec([op |-> "tick"])
  \/ Pass /\ Rec([op |-> "adv"])

Busy == ENABLED Server

GNext ==
  /\ Len(h) < LEN
  /\ \/ Server /\ UNCHANGED h
     \/ (HOLD \/ ~Busy) /\ (GPeers \/ GOther)

GSpec == GInit /\ [][GNext]_gvars

\* evaluated in every state: prints each complete stimulus once it is reached
Emit == Len(h) = LEN => PrintT(ToJson(h))
View == h
=============================================================================
