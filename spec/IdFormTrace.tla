------------------------------ MODULE IdFormTrace ------------------------------
(* Judges what the real code drew, read back and wrote.                        *)
EXTENDS IdForm, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i
T == Data[tid].ev
E == T[i]
Init == tid \in 1..Len(Data) /\ i = 1 /\ last = <<>>

Event == CASE E.e = "draw64" -> Draw64(E.dc, E.wk, E.day, E.ms, E.val) /\ (Reads(F64, E.val, E.own) /\ Reads(F64, E.val, E.parsed)) = TRUE
           [] E.e = "draw32" -> Draw32(E.dc, E.wk, E.day, E.ms, E.val) /\ (Reads(F32, E.val, E.own) /\ Reads(F32, E.val, E.parsed)) = TRUE
           [] OTHER -> /\ UNCHANGED last
                       /\ CASE E.e = "parse" -> Reads(IF Len(E.x) = 8 THEN F64 ELSE F32, E.x, E.parsed)
                            [] E.e = "sgip" -> /\ E.cur = E.val /\ E.s = Words(E.val) /\ E.val[1] = E.node /\ E.val[2] = Val(Twos(E.clk))
                            [] E.e = "words" -> E.s = Words(E.x) /\ E.u = E.x[2] \o E.x[3]
                            [] E.e = "hex" -> E.s = Hex(E.x)
                            [] E.e = "ten" -> E.s = Pad0(Dec(E.x), 10)
                            [] E.e = "fix" -> E.s = Fix(E.x, E.n)
                            [] E.e = "bcd" -> E.o = Bcd(E.s) /\ E.back = E.s
                            [] E.e = "unbcd" -> E.s = UnBcd(E.o) /\ E.back = E.o
                            [] E.e = "now" -> E.s = Twos(E.clk) /\ E.x = Val(E.s) /\ E.back = E.s
                            [] E.e = "fmt" -> E.s = Twos(E.clk) \o <<48, 51, 50, 43>>
                            [] OTHER -> FALSE                            \* crash
Next == i <= Len(T) /\ Event /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<last, tid, i>>

Report == /\ (i > Len(T) => PrintT(<<"DONE", tid>>))
          /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString(last)))
================================================================================
