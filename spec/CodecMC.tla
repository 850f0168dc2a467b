------------------------------- MODULE CodecMC --------------------------------
(* The codec specification checked against itself: every packet type, with    *)
(* up to two fields at boundary values; long messages; optional parameters.   *)
(* The packets it visits are also the stimuli for the real decoders.          *)
EXTENDS Codec, Json, IOUtils
CONSTANTS PAIRS,     \* vary two fields at a time
          EMIT,      \* print the packets
          PROTO,     \* the protocol
          BREAK      \* negative control: "" or a deliberate mistake

Vers == IF PROTO = "cmpp" THEN {32, 48} ELSE {48}
Pat(n, s) == [k \in 1..n |-> ((s * 53) + (k * 37)) % 256]
Chr(n, s) == [k \in 1..n |-> 33 + (((s * 11) + (k * 7)) % 90)]
NV(f) == CASE f.k \in {"num", "raw"} -> 5 [] f.k = "str" -> 5 [] f.k = "list" -> 5 [] f.k = "var" -> 6 [] f.k = "tlvs" -> 5 [] OTHER -> 1
Val(f, x, s) ==
  CASE f.k \in {"num", "raw"} -> (CASE x = 1 -> Zeros(f.w) [] x = 2 -> [k \in 1..f.w |-> 255] [] x = 3 -> Pat(f.w, s)
                                    [] x = 4 -> [k \in 1..f.w |-> IF k = 1 THEN 128 ELSE 0] [] OTHER -> [k \in 1..f.w |-> IF k = f.w THEN 1 ELSE 0])
    [] f.k = "str" -> (CASE x = 1 -> <<>> [] x = 2 -> Chr(1, s) [] x = 3 -> Chr(f.w - 1, s) [] x = 4 -> Chr(f.w, s) [] OTHER -> Chr((f.w + 1) \div 2, s))
    [] f.k = "list" -> (LET item(k) == Chr((CASE k % 3 = 0 -> 1 [] k % 3 = 1 -> f.w - 1 [] OTHER -> f.w), s + k)
                        IN [k \in 1..(<<1, 2, 3, 0, 12>>[x]) |-> item(k)])
    [] f.k = "var" -> Pat(<<0, 1, 7, 140, 60, 255>>[x], s)
    [] f.k = "tlvs" -> (CASE x = 1 -> <<>> [] x = 2 -> <<[t |-> <<0, 2>>, v |-> <<1>>]>>
                         [] x = 3 -> <<[t |-> <<0, 1>>, v |-> <<0>>], [t |-> <<0, 2>>, v |-> <<1>>], [t |-> <<0, 9>>, v |-> <<3>>], [t |-> <<0, 10>>, v |-> <<2>>]>>
                         [] x = 4 -> <<[t |-> <<1, 3>>, v |-> <<>>], [t |-> <<255, 255>>, v |-> Pat(260, s)]>>
                         [] OTHER -> <<[t |-> <<0, 16>>, v |-> Chr(8, s)], [t |-> <<0, 16>>, v |-> Chr(8, s + 1)]>>)
    [] OTHER -> <<>>

VARIABLES kind, ver, j1, x1, j2, x2
Lay == Layout(PROTO, kind, ver)
Salt == (j1 * 31) + x1 + (j2 * 17)
Plainest(f) == CASE f.k \in {"num", "raw", "str", "var"} -> 3 [] OTHER -> 1
Rec == LET lay == Lay
           idx(n) == CHOOSE k \in 1..Len(lay) : lay[k].n = n
           names == {lay[k].n : k \in 1..Len(lay)}
           r0 == TLCEval([n \in names |-> LET k == idx(n) IN
                            Val(lay[k], IF k = j1 THEN x1 ELSE IF k = j2 THEN x2 ELSE Plainest(lay[k]), Salt + k)])
           (* length fields follow from what they count *)
       IN TLCEval([n \in names |-> LET f == lay[idx(n)] IN IF f.k = "len" THEN BE(Len(r0[f.of]), f.w) ELSE r0[n]])

Init == /\ kind \in Kinds(PROTO) /\ ver \in Vers
        /\ j1 \in 1..(IF Len(Layout(PROTO, kind, ver)) = 0 THEN 1 ELSE Len(Layout(PROTO, kind, ver)))
        /\ x1 \in 1..(IF Len(Layout(PROTO, kind, ver)) = 0 THEN 1 ELSE NV(Layout(PROTO, kind, ver)[j1]))
        /\ j2 = 0 /\ x2 = 0
Next == /\ PAIRS /\ j2 = 0
        /\ j2' \in (j1 + 1)..Len(Lay) /\ x2' \in 1..NV(Lay[j2']) /\ UNCHANGED <<kind, ver, j1, x1>>
Spec == Init /\ [][Next]_<<kind, ver, j1, x1, j2, x2>>

Sum(lay, r) == FoldLeft(LAMBDA a, f : a + (CASE f.k = "var" -> Len(r[f.n]) [] f.k = "list" -> f.w * Len(r[f.n])
                                             [] f.k = "tlvs" -> Len(EncTlvs(r[f.n])) [] OTHER -> f.w), 0, lay)
Holds ==
  LET lay == TLCEval(Lay)
      r == Rec
      b == TLCEval(Enc(lay, r))
      d == TLCEval(Dec(lay, IF BREAK = "offset" /\ b # <<>> THEN Tail(b) \o <<0>> ELSE b))
      s == TLCEval(Dec(lay, Front(b)))
  IN /\ d.st = "ok" /\ d.dirty = {}                      (* decoding gives every field back *)
     /\ \A n \in DOMAIN r : d.r[n] = r[n]
     /\ Enc(lay, d.r) = b
     /\ Len(b) = Sum(lay, r)
     (* a body that lost its last octet is noticed, unless only a reserve is cut *)
     /\ b # <<>> => s.st \in {"err", "lax"} \/ (\E k \in 1..Len(lay) : lay[k].k = "tlvs")
     /\ EMIT => PrintT("PKT " \o ToJson(<<kind, ver, b>>))
================================================================================
