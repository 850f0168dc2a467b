------------------------------ MODULE CodecText -------------------------------
(* Long messages, texts and optional parameters, checked on the specification *)
(* itself.                                                                    *)
EXTENDS Codec, Json, IOUtils
CONSTANTS MAXLEN, BREAK, OPS, EMIT
VARIABLES what, n, l, hist

Chars == <<65, 127, 128, 233, 2047, 2048, 20013, 55295, 57344, 65533, 65535, 65536, 128512, 1114111>>
Content == [k \in 1..n |-> (k * 7) % 256]
Tags == {<<0, 1>>, <<1, 0>>}
Vals == {<<>>, <<5>>}
TlvOps == [o : {"add", "rmobj"}, t : Tags, v : Vals] \cup [o : {"rm"}, t : Tags, v : {<<>>}]

Init == \/ what = "split" /\ n \in 0..MAXLEN /\ l \in {20, 140, 160} /\ hist = <<>>
        \/ what = "text" /\ n \in 1..(Len(Chars) * Len(Chars)) /\ l = 0 /\ hist = <<>>
        \/ what = "tlv" /\ n = 0 /\ l = 0 /\ hist = <<>>
Next == what = "tlv" /\ Len(hist) < OPS /\ \E op \in TlvOps : hist' = Append(hist, op) /\ UNCHANGED <<what, n, l>>
Spec == Init /\ [][Next]_<<what, n, l, hist>>

Ps == Parts(Content, l, 77)
Short == (Len(Content) + l - 7) \div (l - 6) <= 255
SplitOk == what = "split" /\ Short =>
  /\ Splits(Ps, Content, l)
  (* and nothing else passes: a lost, exchanged, repeated or shortened part is noticed *)
  /\ Len(Ps) > 1 => /\ ~Splits(Front(Ps), Content, l)
                    /\ ~Splits(Reverse(Ps), Content, l)
                    /\ ~Splits(Ps \o <<Last(Ps)>>, Content, l)
                    /\ ~Splits([Ps EXCEPT ![Len(Ps)] = Front(@)], Content, l)
                    /\ ~Splits([Ps EXCEPT ![1][4] = 78], Content, l)
  /\ Len(Ps) = 1 /\ n > 0 => ~Splits(<<Front(Ps[1])>>, Content, l)
Txt == <<Chars[((n - 1) \div Len(Chars)) + 1], Chars[((n - 1) % Len(Chars)) + 1]>>
TextOk == what = "text" =>
  /\ FromUcs2(ToUcs2(Txt)) = [ok |-> TRUE, t |-> Txt]
  /\ Len(ToUtf8(Txt)) \in 2..8 /\ \A k \in 1..Len(ToUtf8(Txt)) : ToUtf8(Txt)[k] \in Oct
  /\ ~FromUcs2(Front(ToUcs2(Txt))).ok

List == FoldLeft(TlvAfter, <<>>, hist)
TlvOk == what = "tlv" =>
  /\ DecTlvs(EncTlvs(List)) = [ok |-> TRUE, os |-> List]
  /\ List # <<>> => ~DecTlvs(Front(EncTlvs(List))).ok \/ BREAK = "tlv"
  /\ \A t \in Tags : LET h == TlvAfter(List, [o |-> "rm", t |-> t]) IN /\ \A k \in 1..Len(h) : h[k].t # t
                                                                     /\ Len(h) + Cardinality({k \in 1..Len(List) : List[k].t = t}) = Len(List)
Emit == EMIT /\ what = "tlv" /\ Len(hist) = OPS => PrintT("OPS " \o ToJson(hist))
Wrong == BREAK = "split" /\ what = "split" => Splits(Ps, Content \o <<1>>, l)
================================================================================
