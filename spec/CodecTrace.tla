------------------------------ MODULE CodecTrace ------------------------------
(* Judges what the real encoders, decoders and constructors returned.         *)
EXTENDS Codec, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES tid, i
C == Data[tid]

Has(r, n) == n \in DOMAIN r
NoText == <<[c |-> 999999999, g |-> <<>>]>>       (* no text given *)
W(s, x) == s \o " " \o ToString(x)
If(b, s) == IF b THEN {} ELSE {s}            (* the name of what is wrong *)

(* -- header ------------------------------------------------------------- *)
HdrLen(p) == 12
HeaderBad(p, kind, f, seq, any) ==
  IF Len(f) < (IF p = "sgip" THEN 20 ELSE 12) THEN {"shorter than a header"}
  ELSE If(SubSeq(f, 1, 4) = BE(Len(f), 4), "length field") \cup If(SubSeq(f, 5, 8) = Cmd(p, kind), "command id")
       \cup If(any \/ SubSeq(f, 9, 12) = seq, "sequence number")
Body(f) == Drop(f, 12)
HeadSeq(p, f) == SubSeq(f, 9, IF p = "sgip" THEN 20 ELSE 12)

(* octets a correct sender may write: a trailing reserve may be missing *)
Tidy(lay, b) == LET d == Dec(lay, b) IN
  /\ d.st \in {"ok", "lax"} /\ d.dirty = {}
  /\ d.p = Len(b)
  /\ Take(Enc(lay, d.r), Len(b)) = b

FieldOk(f, r, want) ==
  CASE f.k = "str" -> r[f.n] = TrimNul(Take(want, f.w))
    [] f.k = "list" -> r[f.n] = [k \in 1..Len(want) |-> TrimNul(Take(want[k], f.w))]
    [] f.k \in {"num", "len"} -> Strip(r[f.n]) = Strip(want)
    [] OTHER -> r[f.n] = want
FieldsBad(lay, r, want) == {lay[k].n : k \in {j \in 1..Len(lay) : Has(want, lay[j].n) /\ ~FieldOk(lay[j], r, want[lay[j].n])}}

(* -- decoding ----------------------------------------------------------- *)
TextOf(x) == [k \in 1..Len(x) |-> x[k].c]             (* x: sequence of [c: code point, g: GB18030 octets] *)
GbOf(x) == Cat([k \in 1..Len(x) |-> x[k].g])
Unknown == <<256>>                                     (* no statement about this value *)
Part(udhi, fmt, c) == IF udhi # <<1>> \/ ~HasUdh(c) THEN c
                      ELSE IF fmt # <<8>> THEN Drop(c, 6)
                      ELSE LET u == FromUcs2(Drop(c, 6)) IN IF u.ok THEN ToUtf8(u.t) ELSE Unknown
Content(p, kind, r, txt) ==
  CASE p = "cmpp" /\ kind = "submit" -> Part(r.TpUdhi, r.MsgFmt, r.MsgContent)
    [] p = "cmpp" /\ kind = "deliver" -> IF r.IsReport = <<1>> THEN Unknown ELSE IF r.MsgFmt # <<8>> THEN r.MsgContent
                                         ELSE LET u == FromUcs2(r.MsgContent) IN IF u.ok THEN ToUtf8(u.t) ELSE Unknown
    [] p = "smgp" -> IF txt = NoText \/ (kind = "deliver" /\ r.IsReport = <<1>>) THEN Unknown ELSE ToUtf8(TextOf(txt))
    [] p = "sgip" /\ kind = "submit" -> Part(r.TpUdhi, r.MessageCoding, r.MessageContent)
    [] OTHER -> r.MessageContent

IsRep(p, kind, r) == p # "sgip" /\ kind = "deliver" /\ r.IsReport = <<1>>
RepLay(p) == IF p = "cmpp" THEN CmppReport ELSE SmgpReport
Rep(p, r) == Dec(RepLay(p), r.MsgContent)
(* a report whose text is not what a correct gateway writes *)
RepLax(p, r) == LET d == Rep(p, r) IN d.st # "ok" \/ d.dirty # {} \/ (p = "smgp" /\ \E l \in DOMAIN SmgpLabels : d.r[l] # SmgpLabels[l])

ReportNames == [RMsgId |-> "MsgId", RStat |-> "Stat", RSubmitTime |-> "SubmitTime", RDoneTime |-> "DoneTime", RDestTerminalId |-> "DestTerminalId",
                RSmscSequence |-> "SmscSequence", RId |-> "Id", RSub |-> "Sub", RDlvrd |-> "Dlvrd", RSubmitDate |-> "SubmitDate", RDoneDate |-> "DoneDate"]
NumFields == {"MsgId", "SmscSequence"}

(* the values an object that decoded this body has to show *)
GotBad(c, d, got, txt) ==
  LET p == c.p
      r == d.r
      lay == Layout(p, c.kind, c.v)
      kindOf(n) == LET f == SelectSeq(lay, LAMBDA x : x.n = n) IN IF f = <<>> THEN "" ELSE f[1].k
      good(n) ==
        CASE n = "Seq" -> got[n] = (c.seq \o IF p = "sgip" THEN r.Seq23 ELSE <<>>)
          [] n = "Cmd" -> got[n] = Cmd(p, c.kind)
          [] n = "TermIdsRaw" -> "TermIds" \in d.dirty \/ got[n] = EncField(I("TermIds", IF Major3(c.v) THEN 32 ELSE 21, ""), r)
          [] n = "DestTerminalId" -> \/ r.TermIds = <<>> \/ "TermIds" \in d.dirty
                                     \/ Len(r.TermIds[1]) >= (IF Major3(c.v) THEN 32 ELSE 21)
                                     \/ got[n] = r.TermIds[1]
          [] n \in {"MsgContent", "MessageContent"} -> LET x == Content(p, c.kind, r, txt) IN x = Unknown \/ got[n] = x
          [] n \in DOMAIN ReportNames ->
               \/ ~IsRep(p, c.kind, r) \/ RepLax(p, r)
               \/ LET m == ReportNames[n]
                      x == Rep(p, r).r[m] IN
                  IF p = "cmpp" /\ m \in NumFields THEN Strip(got[n]) = Strip(x) ELSE got[n] = x
          [] n = "IsRep" -> got[n] = (r.IsReport = <<1>>)
          [] n \in d.dirty -> TRUE
          [] n \in {"Tlvs", "Reserve"} /\ d.st = "lax" -> TRUE
          [] n \notin DOMAIN r -> FALSE
          [] kindOf(n) \in {"num", "len"} -> Strip(got[n]) = Strip(r[n])
          [] OTHER -> got[n] = r[n]
  IN {n \in DOMAIN got : ~good(n)}

StatusName(p, kind) == IF p = "cmpp" /\ kind # "connect_resp" THEN "Result" ELSE "Status"
RespBad(c, d, f) ==
  LET p == c.p
      k == RespOf(c.kind)
      v == IF c.kind = "connect" THEN d.r.Version[1] ELSE c.v
      lay == Layout(p, k, v)
      want == (StatusName(p, k) :> c.code)
              @@ (IF c.kind = "deliver" /\ p # "sgip" THEN [MsgId |-> d.r.MsgId] ELSE <<>>)
              @@ (IF c.kind \in {"connect", "login"} THEN [Version |-> d.r.Version] ELSE <<>>)
              @@ (IF p = "sgip" THEN [Seq23 |-> d.r.Seq23] ELSE <<>>)
      h == HeaderBad(p, k, f, c.seq, FALSE)
  IN IF h # {} THEN {W("response", h)}
     ELSE IF ~Tidy(lay, Body(f)) THEN {"response layout"}
     ELSE LET b == FieldsBad(lay, Dec(lay, Body(f)).r, want) IN If(b = {}, W("response", b))

(* encoding what was decoded gives the same octets, where the object keeps everything *)
Kept(c, d) ==
  LET r == d.r IN
  /\ d.st = "ok" /\ d.dirty = {}
  /\ Has(r, "Reserve") => r.Reserve = <<>>
  /\ ~(c.p = "smgp" /\ c.kind \in {"submit", "deliver"})
  /\ c.p = "cmpp" /\ c.kind = "submit" => Strip(r.MsgId0) = <<>> /\ ~(r.TpUdhi = <<1>> /\ HasUdh(r.MsgContent))
  /\ c.p = "sgip" /\ c.kind = "submit" => ~(r.TpUdhi = <<1>> /\ HasUdh(r.MessageContent))
  /\ c.p = "cmpp" /\ c.kind = "connect_resp" => Major3(r.Version[1]) = Major3(c.v)
  /\ c.p = "cmpp" /\ c.kind = "deliver" => /\ r.IsReport = <<1>> => ~RepLax("cmpp", r) /\ Len(r.MsgContent) = 60
                                           /\ r.IsReport # <<1>> => IF r.MsgFmt = <<8>> THEN FromUcs2(r.MsgContent).ok /\ Len(r.MsgContent) <= 140
                                                                    ELSE Len(r.MsgContent) <= 160
ReBad(c, d, f) ==
  IF ~Kept(c, d) THEN {}
  ELSE LET h == HeaderBad(c.p, c.kind, f, c.seq, FALSE) IN IF h # {} THEN {W("encoded again", h)} ELSE If(Body(f) = c.body, "encoded again")

DecBad(c, o, txt) ==
  LET lay == Layout(c.p, c.kind, c.v)
      d == TLCEval(Dec(lay, c.body))
      replax == d.st # "err" /\ IsRep(c.p, c.kind, d.r) /\ RepLax(c.p, d.r)
      short == d.st # "err" /\ IsRep(c.p, c.kind, d.r) /\ c.p = "cmpp" /\ Len(d.r.MsgContent) < 60
  IN IF o.panic THEN {"panic"}
     ELSE IF d.st = "err" \/ short THEN If(o.err, "too short, but accepted")
     ELSE IF o.err THEN If(d.st = "lax" \/ replax, "refused")
     ELSE LET g == GotBad(c, d, o.got, txt) IN
          If(g = {}, W("decoded fields", g))
          \cup (IF o.resp = <<>> THEN If(RespOf(c.kind) = "", "no response") ELSE RespBad(c, d, o.resp))
          \cup (IF o.re = <<>> THEN {} ELSE ReBad(c, d, o.re))

(* -- constructors -------------------------------------------------------- *)
(* the octets of one request: layout and wanted fields *)
WireBad(c, kind, b, want, any) ==
  LET lay == Layout(c.p, kind, c.v)
      h == HeaderBad(c.p, kind, b, c.seq, any)
      d == TLCEval(Dec(lay, Body(b)))
  IN IF h # {} THEN {W("header", h)}
     ELSE IF ~(d.st = "ok" /\ d.dirty = {} /\ Enc(lay, d.r) = Body(b)) THEN {"layout"}
     ELSE LET w == FieldsBad(lay, d.r, want) IN If(w = {}, W("fields", w))
(* one packet made by a constructor: its octets, and what decoding them shows *)
PacketBad(c, kind, pk, want, any, txt) ==
  LET w == TLCEval(WireBad(c, kind, pk.b, want, any)) IN
  IF w # {} THEN w ELSE DecBad([kind |-> kind, body |-> Body(pk.b), code |-> <<0>>, seq |-> SubSeq(pk.b, 9, 12)] @@ c, pk.o, txt)

SimpleBad(c, want) == IF Len(c.out.pk) # 1 THEN {"number of packets"}
                      ELSE PacketBad(c, c.kind, c.out.pk[1], want, c.p = "sgip", NoText)

ContentName(p) == IF p = "sgip" THEN "MessageContent" ELSE "MsgContent"
Uniform(x, n) == \A k \in 1..Len(x) : Len(x[k].g) = n

(* one text to some phones: the packets bs (octets) are exactly its parts; free: the first sequence number is not given *)
SubmitWire(c, bs, free) ==
  LET p == c.p
      n == Len(bs)
      lay == Layout(p, "submit", c.v)
      o == TLCEval(Options(c.opts))
      t == TLCEval(TextOf(c.text))
      oct == TLCEval(IF p = "smgp" THEN GbOf(c.text) ELSE Octets(t))
      lim == IF p = "smgp" THEN 140 ELSE Limit(t)
      to == CASE p = "cmpp" -> [TermIds |-> c.phones] [] p = "smgp" -> [DestTermID |-> c.phones] [] p = "sgip" -> [UserNumber |-> c.phones]
      fmt == CASE p = "cmpp" -> [MsgFmt |-> <<Format(t)>>, TpUdhi |-> <<IF n > 1 THEN 1 ELSE 0>>]
               [] p = "sgip" -> [MessageCoding |-> <<Format(t)>>, TpUdhi |-> <<IF n > 1 THEN 1 ELSE 0>>]
               [] OTHER -> <<>>
      want(k) == to @@ fmt @@ (IF p = "cmpp" THEN [PkTotal |-> <<n>>, PkNumber |-> <<k>>] ELSE <<>>) @@ SubmitFields(p, c.ac, o, c.valid)
      per == TLCEval([k \in 1..n |-> WireBad(c, "submit", bs[k], want(k), free \/ k > 1 \/ p = "sgip")])
      recs == TLCEval([k \in 1..n |-> Dec(lay, Body(bs[k])).r])
      rec(k) == recs[k]
      seqs == {HeadSeq(p, bs[k]) : k \in 1..n}
      tlv(k, tag, v) == SelectSeq(rec(k).Tlvs, LAMBDA x : x.t = <<0, tag>>) = <<[t |-> <<0, tag>>, v |-> <<v>>]>>
  IN IF n = 0 THEN {"no packet"}
     ELSE IF \E k \in 1..n : per[k] # {} THEN {W("part " \o ToString(k), per[k]) : k \in {j \in 1..n : per[j] # {}}}
     ELSE If(Splits([k \in 1..n |-> rec(k)[ContentName(p)]], oct, lim), "parts")
          \cup If(Cardinality(seqs) = n, "sequence numbers repeat")
          \cup If(p = "smgp" /\ n > 1 => \A k \in 1..n : tlv(k, 2, 1) /\ tlv(k, 9, n) /\ tlv(k, 10, k), "optional parameters")

(* ... and what decoding them shows *)
SubmitBad(c) ==
  LET p == c.p
      n == Len(c.out.pk)
      t == TLCEval(TextOf(c.text))
      w == TLCEval(SubmitWire(c, [k \in 1..n |-> c.out.pk[k].b], FALSE))
      txt == IF p = "smgp" /\ n = 1 THEN c.text ELSE NoText
      dec(k) == LET b == c.out.pk[k].b IN
                DecBad([kind |-> "submit", body |-> Body(b), code |-> <<0>>, seq |-> SubSeq(b, 9, 12)] @@ c, c.out.pk[k].o, txt)
      per == TLCEval([k \in 1..n |-> dec(k)])
      shown == Cat([k \in 1..n |-> c.out.pk[k].o.got[ContentName(p)]])
      text == CASE p = "smgp" -> n > 1 /\ (Uniform(c.text, 1) \/ Uniform(c.text, 2))
                [] OTHER -> n > 1 /\ \A k \in 1..Len(t) : t[k] < 65536
  IN IF w # {} THEN w
     ELSE IF \E k \in 1..n : per[k] # {} THEN {W("part " \o ToString(k), per[k]) : k \in {j \in 1..n : per[j] # {}}}
     ELSE If(text => shown = ToUtf8(t), "decoded text")

(* what the gateways got (octets b on connections of operator p) when callers sent some texts to some phones each: for    *)
(* every phone exactly the parts of its text, with the account's and the caller's options' fields, and nothing else       *)
To(p, v, b) ==
  LET d == Dec(Layout(p, "submit", v), Body(b)) IN
  IF Len(b) < (IF p = "sgip" THEN 20 ELSE 12) \/ d.st = "err" THEN <<>>
  ELSE CASE p = "cmpp" -> d.r.TermIds [] p = "smgp" -> d.r.DestTermID [] p = "sgip" -> d.r.UserNumber
SentBad(c) ==
  LET pk == c.out.pk
      n == Len(pk)
      v(p) == c.ops[p].v
      to == TLCEval([k \in 1..n |-> <<pk[k].p, To(pk[k].p, v(pk[k].p), pk[k].b)>>])
      whose == {<<c.sends[j].p, <<c.sends[j].phone>>>> : j \in 1..Len(c.sends)}
      mine(j) == LET s == c.sends[j]
                     ks == SelectSeq([k \in 1..n |-> k], LAMBDA k : to[k] = <<s.p, <<s.phone>>>>)
                 IN [x \in 1..Len(ks) |-> pk[ks[x]].b]
      bad(j) == LET s == c.sends[j] IN
                SubmitWire([p |-> s.p, v |-> v(s.p), ac |-> c.ops[s.p].ac, opts |-> s.opts, text |-> s.text, phones |-> <<s.phone>>,
                            valid |-> c.ops[s.p].valid, seq |-> <<>>], mine(j), TRUE)
      per == TLCEval([j \in 1..Len(c.sends) |-> bad(j)])
  IN If(\A k \in 1..n : pk[k].w = "", "not packets")
     \cup {W("message for", to[k]) : k \in {x \in 1..n : to[x] \notin whose}}
     \cup {W("send " \o ToString(j), per[j]) : j \in {x \in 1..Len(c.sends) : per[x] # {}}}
     \cup If(Cardinality({<<pk[k].p, HeadSeq(pk[k].p, pk[k].b)>> : k \in 1..n}) = n, "sequence numbers repeat")

DeliverBad(c) ==
  LET p == c.p
      t == TextOf(c.text)
      oct == IF p = "smgp" THEN GbOf(c.text) ELSE Octets(t)
      lim == IF p = "smgp" THEN 140 ELSE Limit(t)
      dest == c.ac.SmsDisplayNo \o c.dest
      fits == Len(oct) <= lim /\ (p = "smgp" => Len(t) <= 70)
      pk == c.out.pk[1]
      lay == Layout(p, "deliver", c.v)
      want(dn) == CASE p = "cmpp" -> [SrcTerminalId |-> c.phone, DestId |-> dn, ServiceId |-> Pick(c.service, c.ac.ServiceId), IsReport |-> <<0>>,
                                      MsgFmt |-> <<Format(t)>>]
                    [] p = "smgp" -> [SrcTermID |-> c.phone, DestTermID |-> dn, IsReport |-> <<0>>, MsgFormat |-> <<15>>]
                    [] p = "sgip" -> [UserNumber |-> c.phone, SPNumber |-> dn, MessageCoding |-> <<Format(t)>>]
      txt == IF p = "smgp" /\ fits THEN c.text ELSE NoText
      bad(dn) == PacketBad(c, "deliver", pk, want(dn), p = "sgip", txt)
      (* an SGIP destination which already is a number of the account is kept *)
      both == IF p = "sgip" /\ IsPrefix(c.ac.SmsDisplayNo, c.dest) /\ bad(c.dest) = {} THEN {} ELSE bad(dest)
      con == Dec(lay, Body(pk.b)).r[ContentName(p)]
      got == pk.o.got[ContentName(p)]
  IN IF Len(c.out.pk) # 1 THEN {"number of packets"}
     ELSE IF both # {} THEN both
     ELSE IF fits THEN If(con = oct, "content") \cup If(got = (IF p = "sgip" THEN oct ELSE ToUtf8(t)), "decoded text")
     ELSE IF p = "smgp" THEN {}
     ELSE If(Len(con) <= lim /\ IsPrefix(con, oct), "content") \cup If(p = "sgip" \/ IsPrefix(got, ToUtf8(t)), "decoded text")

Str(s) == CASE s = "DELIVRD" -> <<68, 69, 76, 73, 86, 82, 68>> [] s = "EXPIRED" -> <<69, 88, 80, 73, 82, 69, 68>> [] s = "UNDELIV" -> <<85, 78, 68, 69, 76, 73, 86>>
Mod100(q) == ((q[1] * 16) + (q[2] * 36) + (q[3] * 56) + q[4]) % 100
Faked == {99, 88, 77, 66, 55, 44, 33, 22, 11, 10}

ReportBad(c) ==
  LET p == c.p
      pk == c.out.pk[1]
      lay == Layout(p, c.kind, c.v)
      mt == Dec(Layout(p, "submit", c.v), c.mt).r
      want == CASE p = "cmpp" -> [SrcTerminalId |-> mt.TermIds[1], DestId |-> mt.SrcId, IsReport |-> <<1>>, MsgLength |-> <<60>>]
                [] p = "smgp" -> [SrcTermID |-> mt.DestTermID[1], DestTermID |-> mt.SrcTermID, IsReport |-> <<1>>, MsgLength |-> <<122>>]
                [] p = "sgip" -> [MtSequence |-> c.mtseq, UserNumber |-> c.phone, State |-> c.state, ErrorCode |-> c.errcode]
      b == PacketBad(c, c.kind, pk, want, p # "smgp", NoText)
      r == Dec(lay, Body(pk.b)).r
      d == Rep(p, r)
  IN IF Len(c.out.pk) # 1 THEN {"number of packets"}
     ELSE IF b # {} \/ p = "sgip" THEN b
     ELSE IF RepLax(p, r) THEN {"report text"}
     ELSE IF p = "cmpp"
          THEN If(Strip(d.r.MsgId) = Strip(c.msgid), "report's message id") \cup If(d.r.DestTerminalId = Take(mt.TermIds[1], 21), "report's number")
               \cup If(Mod100(d.r.SmscSequence) \in Faked \/ d.r.Stat = Str("DELIVRD"), "report's state")
          ELSE If(d.r.Id = c.msgid, "report's message id")
               \cup If(d.r.Stat = Str("DELIVRD") \/ (c.fake /\ d.r.Stat \in {Str("EXPIRED"), Str("UNDELIV")}), "report's state")

(* struct fields set by hand, then encoded (SGIP) *)
EncBad(c) ==
  LET f == c.out.b
      h == HeaderBad(c.p, c.kind, f, c.seq, FALSE)
      e == Enc(Layout(c.p, c.kind, c.v), c.r) IN
  IF c.out.panic THEN {"panic"} ELSE IF h # {} THEN h
  ELSE If(Body(f) = e \/ (c.kind = "bind_resp" /\ Body(f) = Take(e, 9)), "octets")

TlvBad(c) ==
  LET step(a, k) == IF ~TlvAnswer(a.l, c.ops[k], c.out.a[k]) THEN [l |-> TlvAfter(a.l, c.ops[k]), bad |-> a.bad \cup {W("operation " \o ToString(k), c.ops[k].o)}]
                    ELSE [l |-> TlvAfter(a.l, c.ops[k]), bad |-> a.bad]
  IN IF c.out.panic THEN {"panic"} ELSE FoldLeft(step, [l |-> <<>>, bad |-> {}], [k \in 1..Len(c.ops) |-> k]).bad

Bad(c) ==
  CASE c.k = "dec" -> DecBad(c, c.out, IF Has(c, "text") THEN c.text ELSE NoText)
    [] c.k = "enc" -> EncBad(c)
    [] c.k = "tlv" -> TlvBad(c)
    [] Has(c, "out") /\ Has(c.out, "panic") /\ c.out.panic -> {"panic"}
    [] c.k = "split" -> If(Splits(c.out.parts, c.content, c.limit), "parts")
    [] c.k = "slices" -> If(Splits(c.out.parts, Octets(TextOf(c.text)), Limit(TextOf(c.text))), "parts")
    [] c.k = "submit" -> SubmitBad(c)
    [] c.k = "deliver" -> DeliverBad(c)
    [] c.k = "report" -> ReportBad(c)
    [] c.k = "sent" -> SentBad(c)
    [] c.k = "login" -> WireBad(c, c.kind, c.b, c.want, TRUE)
    [] c.k = "simple" -> SimpleBad(c, c.want)

Init == tid \in 1..Len(Data) /\ i = 1
Next == i = 1 /\ ((Bad(C) = {}) = TRUE) /\ i' = 2 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, i>>

Report == /\ (i = 2 => PrintT(<<"DONE", tid>>))
          /\ ("VERIF_PROGRESS" \in DOMAIN IOEnv => PrintT("AT " \o ToString(i) \o " " \o ToString(Bad(C))))
===============================================================================
