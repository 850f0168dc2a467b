-------------------------------- MODULE Client --------------------------------
(* One session of the client with a gateway, after the login: the stream of    *)
(* octets it receives is cut into packets by their length fields only, each    *)
(* packet is reacted to once and in order, any thread may send, ask for the    *)
(* health of the session and close it, and the gateway may vanish at any time. *)
(*                                                                             *)
(* What a packet means is a parameter: React(cx, p) is the set of admissible   *)
(* reactions, each [ans: packets written back, fin: the client ends the        *)
(* session]; cx: the protocol and version spoken.                              *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS HeadLen,      \* octets of a packet's head
          MaxLen,       \* longest legal packet
          LenOf(_),     \* length a head claims
          React(_, _)

VARIABLES cx,
          ph,           \* "none"; "up"; "ending": being closed; "down"
          fin,          \* the receiver ends the session (and reads no more)
          inb,          \* received, not yet handled
          eof, brk,     \* the gateway closed its direction; the client's writes fail
          outs          \* what the client wrote, in order
cvars == <<cx, ph, fin, inb, eof, brk, outs>>

Rest(s, n) == SubSeq(s, n + 1, Len(s))
CInit(c) == cx = c /\ ph = "none" /\ fin = FALSE /\ inb = <<>> /\ eof = FALSE /\ brk = FALSE /\ outs = <<>>

Open == ph \in {"up", "ending"}
CanWrite == Open /\ ~brk
CanFail == ph \in {"ending", "down"} \/ brk          \* a write may fail

--------------------------------------------------------------------------------
(* The gateway.                                                                *)
Feed(d) == inb' = (IF ph = "down" THEN <<>> ELSE inb \o d) /\ UNCHANGED <<cx, ph, fin, eof, brk, outs>>
Hangup == eof' = TRUE /\ brk' = TRUE /\ UNCHANGED <<cx, ph, fin, inb, outs>>
Break == brk' = TRUE /\ UNCHANGED <<cx, ph, fin, inb, eof, outs>>

--------------------------------------------------------------------------------
(* The receiver.                                                               *)
Claimed == LenOf(SubSeq(inb, 1, HeadLen))
Illegal == Len(inb) >= HeadLen /\ (Claimed < HeadLen \/ Claimed > MaxLen)
Complete == Len(inb) >= HeadLen /\ ~Illegal /\ Len(inb) >= Claimed
Handle ==
  /\ Open /\ ~fin /\ Complete
  /\ inb' = Rest(inb, Claimed)
  /\ \E r \in React(cx, SubSeq(inb, 1, Claimed)) :
       \/ (r.ans = <<>> \/ CanWrite) /\ outs' = outs \o r.ans /\ fin' = r.fin
       \/ r.ans # <<>> /\ CanFail /\ outs' = outs /\ fin' = TRUE
  /\ ph' = IF fin' THEN "ending" ELSE ph
  /\ UNCHANGED <<cx, eof, brk>>
Refuse == Open /\ ~fin /\ (Illegal \/ (eof /\ ~Complete)) /\ fin' = TRUE /\ ph' = "ending" /\ UNCHANGED <<cx, inb, eof, brk, outs>>
Settle == fin /\ ph = "ending" /\ ph' = "down" /\ UNCHANGED <<cx, fin, inb, eof, brk, outs>>
Receiver == Handle \/ Refuse \/ Settle
(* Nothing is left to do.                                                      *)
Quiet == ph = "down" \/ (ph = "up" /\ ~Complete /\ ~Illegal /\ ~eof)

--------------------------------------------------------------------------------
(* Any thread.  Closing takes two steps: the session is already of no use      *)
(* before its connection is closed.                                            *)
Emit(p) == CanWrite /\ outs' = Append(outs, p) /\ UNCHANGED <<cx, ph, fin, inb, eof, brk>>
Fail == CanFail /\ ph' = "down" /\ UNCHANGED <<cx, fin, inb, eof, brk, outs>>
CloseBegin == ph' = (IF ph = "down" THEN "down" ELSE "ending") /\ UNCHANGED <<cx, fin, inb, eof, brk, outs>>
CloseEnd == ph' = "down" /\ UNCHANGED <<cx, fin, inb, eof, brk, outs>>
Live(r) == (IF r THEN Open ELSE ph \in {"ending", "down"}) /\ UNCHANGED cvars
================================================================================
