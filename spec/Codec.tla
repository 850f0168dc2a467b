-------------------------------- MODULE Codec --------------------------------
(* The packets of CMPP 2.x/3.x, SMGP 3.x and SGIP 1.2 as this gateway and     *)
(* client exchange them: what every field is, where it lies, how numbers,     *)
(* strings, lists, message contents and optional parameters are written, and  *)
(* what decoding such octets gives back.                                      *)
(*                                                                            *)
(* A packet is a header (length, command, sequence number: 3 words, SGIP 5)   *)
(* followed by a body.  Values are sequences of octets throughout: a number   *)
(* is its big-endian octets, a string its octets without the zero filling.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Oct == 0..255
Zeros(n) == [k \in 1..n |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Cat(ss) == FlattenSeq(ss)
Mem(x, s) == \E k \in 1..Len(s) : s[k] = x

(* Octets of a number, and back; more than 2^24 is just "huge".               *)
RECURSIVE BE(_, _)
BE(x, w) == IF w = 0 THEN <<>> ELSE BE(x \div 256, w - 1) \o <<x % 256>>
Huge == 16777216
Num(s) == LET t == IF Len(s) > 3 THEN SubSeq(s, Len(s) - 2, Len(s)) ELSE s
          IN IF \E k \in 1..(Len(s) - Len(t)) : s[k] # 0 THEN Huge
             ELSE FoldLeft(LAMBDA a, b : (a * 256) + b, 0, t)
(* A number without leading zero octets: numbers of different width compare.  *)
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> \/ s[1] # 0 THEN s ELSE Strip(Tail(s))

(* Fixed strings.                                                             *)
Nul(s) == LET z == {k \in 1..Len(s) : s[k] = 0} IN IF z = {} THEN 0 ELSE CHOOSE k \in z : \A j \in z : k <= j
TrimNul(s) == IF Nul(s) = 0 THEN s ELSE SubSeq(s, 1, Nul(s) - 1)
Pad(s, w) == Take(s, w) \o Zeros(w - Min2(w, Len(s)))
Clean(s) == Nul(s) = 0 \/ \A k \in Nul(s)..Len(s) : s[k] = 0

--------------------------------------------------------------------------------
(* Layouts.  Kinds of field:                                                  *)
(*   num, raw   w octets                                                      *)
(*   str        w octets, zero filled                                         *)
(*   len        w octets: the length of var "of", or number of items of list  *)
(*   list       items of w octets each, as many as len field "of" says        *)
(*   var        as many octets as len field "of" says                         *)
(*   opt        w octets which a sender may leave out at the end              *)
(*   tlvs       optional parameters up to the end                             *)
F(n, k, w) == [n |-> n, k |-> k, w |-> w, of |-> ""]
L(n, w, of) == [n |-> n, k |-> "len", w |-> w, of |-> of]
V(n, of) == [n |-> n, k |-> "var", w |-> 1, of |-> of]
I(n, w, of) == [n |-> n, k |-> "list", w |-> w, of |-> of]

Major3(v) == v \div 16 = 3
Words(n) == F(n, "raw", 8)

CmppLayout(kind, v) ==
  LET t == IF Major3(v) THEN 32 ELSE 21
      st == IF Major3(v) THEN 4 ELSE 1
      only3(f) == IF Major3(v) THEN <<f>> ELSE <<>>
      tail == IF Major3(v) THEN <<F("LinkID", "str", 20)>> ELSE <<F("Reserve", "opt", 8)>>
  IN CASE kind = "connect" -> <<F("SourceAddr", "str", 6), F("Auth", "raw", 16), F("Version", "num", 1), F("Timestamp", "num", 4)>>
       [] kind = "connect_resp" -> <<F("Status", "num", st), F("Auth", "raw", 16), F("Version", "num", 1)>>
       [] kind = "submit" ->
            <<F("MsgId0", "num", 8), F("PkTotal", "num", 1), F("PkNumber", "num", 1), F("RegisteredDel", "num", 1), F("MsgLevel", "num", 1),
              F("ServiceId", "str", 10), F("FeeUsertype", "num", 1), F("FeeTerminalId", "str", t)>>
            \o only3(F("FeeTerminalType", "num", 1)) \o
            <<F("TpPid", "num", 1), F("TpUdhi", "num", 1), F("MsgFmt", "num", 1), F("MsgSrc", "str", 6), F("FeeType", "str", 2),
              F("FeeCode", "str", 6), F("ValidTime", "str", 17), F("AtTime", "str", 17), F("SrcId", "str", 21),
              L("DestUsrTl", 1, "TermIds"), I("TermIds", t, "DestUsrTl")>>
            \o only3(F("DestTerminalType", "num", 1)) \o
            <<L("MsgLength", 1, "MsgContent"), V("MsgContent", "MsgLength")>> \o tail
       [] kind \in {"submit_resp", "deliver_resp"} -> <<F("MsgId", "num", 8), F("Result", "num", st)>>
       [] kind = "deliver" ->
            <<F("MsgId", "num", 8), F("DestId", "str", 21), F("ServiceId", "str", 10), F("TpPid", "num", 1), F("TpUdhi", "num", 1),
              F("MsgFmt", "num", 1), F("SrcTerminalId", "str", t)>>
            \o only3(F("SrcTerminalType", "num", 1)) \o
            <<F("IsReport", "num", 1), L("MsgLength", 1, "MsgContent"), V("MsgContent", "MsgLength")>> \o tail
       [] kind = "active_test_resp" -> <<F("Reserve", "opt", 1)>>
       [] OTHER -> <<>>

CmppReport == <<F("MsgId", "num", 8), F("Stat", "str", 7), F("SubmitTime", "str", 10), F("DoneTime", "str", 10),
                F("DestTerminalId", "str", 21), F("SmscSequence", "num", 4)>>

SmgpLayout(kind) ==
  CASE kind = "login" -> <<F("ClientID", "str", 8), F("Auth", "raw", 16), F("LoginMode", "num", 1), F("Timestamp", "num", 4), F("Version", "num", 1)>>
    [] kind = "login_resp" -> <<F("Status", "num", 4), F("Auth", "raw", 16), F("Version", "num", 1)>>
    [] kind = "submit" ->
         <<F("MsgType", "num", 1), F("NeedReport", "num", 1), F("Priority", "num", 1), F("ServiceID", "str", 10), F("FeeType", "str", 2),
           F("FeeCode", "str", 6), F("FixedFee", "str", 6), F("MsgFormat", "num", 1), F("ValidTime", "str", 17), F("AtTime", "str", 17),
           F("SrcTermID", "str", 21), F("ChargeTermID", "str", 21), L("DestTermIDCount", 1, "DestTermID"), I("DestTermID", 21, "DestTermIDCount"),
           L("MsgLength", 1, "MsgContent"), V("MsgContent", "MsgLength"), F("Reserve", "str", 8), F("Tlvs", "tlvs", 0)>>
    [] kind \in {"submit_resp", "deliver_resp"} -> <<F("MsgId", "raw", 10), F("Status", "num", 4)>>
    [] kind = "deliver" ->
         <<F("MsgId", "raw", 10), F("IsReport", "num", 1), F("MsgFormat", "num", 1), F("RecvTime", "str", 14), F("SrcTermID", "str", 21),
           F("DestTermID", "str", 21), L("MsgLength", 1, "MsgContent"), V("MsgContent", "MsgLength"), F("Reserve", "opt", 8)>>
    [] OTHER -> <<>>

(* Status report text of SMGP: labels and fixed-width values.                 *)
SmgpReport == <<F("l1", "raw", 3), F("Id", "raw", 10), F("l2", "raw", 5), F("Sub", "raw", 3), F("l3", "raw", 7), F("Dlvrd", "raw", 3),
                F("l4", "raw", 13), F("SubmitDate", "raw", 10), F("l5", "raw", 11), F("DoneDate", "raw", 10), F("l6", "raw", 6), F("Stat", "raw", 7),
                F("l7", "raw", 5), F("Err", "raw", 3), F("l8", "raw", 6), F("Txt", "raw", 20)>>
SmgpLabels == [l1 |-> <<105, 100, 58>>, l2 |-> <<32, 115, 117, 98, 58>>, l3 |-> <<32, 100, 108, 118, 114, 100, 58>>,
               l4 |-> <<32, 115, 117, 98, 109, 105, 116, 32, 100, 97, 116, 101, 58>>, l5 |-> <<32, 100, 111, 110, 101, 32, 100, 97, 116, 101, 58>>,
               l6 |-> <<32, 115, 116, 97, 116, 58>>, l7 |-> <<32, 101, 114, 114, 58>>, l8 |-> <<32, 116, 101, 120, 116, 58>>]

(* The body of SGIP starts with the second and third word of the sequence number. *)
SgipLayout(kind) ==
  CASE kind = "bind" -> <<Words("Seq23"), F("LoginType", "num", 1), F("LoginName", "str", 16), F("LoginPassword", "str", 16), F("Reserve", "opt", 8)>>
    [] kind = "bind_resp" -> <<Words("Seq23"), F("Status", "num", 1), F("Reserve", "opt", 8)>>
    [] kind = "submit" ->
         <<Words("Seq23"), F("SPNumber", "str", 21), F("ChargeNumber", "str", 21), L("UserCount", 1, "UserNumber"), I("UserNumber", 21, "UserCount"),
           F("CorpId", "str", 5), F("ServiceType", "str", 10), F("FeeType", "num", 1), F("FeeValue", "str", 6), F("GivenValue", "str", 6),
           F("AgentFlag", "num", 1), F("MorelatetoMTFlag", "num", 1), F("Priority", "num", 1), F("ExpireTime", "str", 16),
           F("ScheduleTime", "str", 16), F("ReportFlag", "num", 1), F("TpPid", "num", 1), F("TpUdhi", "num", 1), F("MessageCoding", "num", 1),
           F("MessageType", "num", 1), L("MessageLength", 4, "MessageContent"), V("MessageContent", "MessageLength"), F("Reserve", "opt", 8)>>
    [] kind = "deliver" ->
         <<Words("Seq23"), F("UserNumber", "str", 21), F("SPNumber", "str", 21), F("TpPid", "num", 1), F("TpUdhi", "num", 1),
           F("MessageCoding", "num", 1), L("MessageLength", 4, "MessageContent"), V("MessageContent", "MessageLength"), F("Reserve", "opt", 8)>>
    [] kind = "report" -> <<Words("Seq23"), F("MtSequence", "raw", 12), F("ReportType", "num", 1), F("UserNumber", "str", 21), F("State", "num", 1),
                            F("ErrorCode", "num", 1), F("Reserve", "opt", 8)>>
    [] kind \in {"submit_resp", "deliver_resp", "report_resp"} -> <<Words("Seq23"), F("Status", "num", 1), F("Reserve", "opt", 8)>>
    [] OTHER -> <<Words("Seq23")>>

Layout(p, kind, v) == CASE p = "cmpp" -> CmppLayout(kind, v) [] p = "smgp" -> SmgpLayout(kind) [] p = "sgip" -> SgipLayout(kind)

Kinds(p) == CASE p = "cmpp" -> {"connect", "connect_resp", "submit", "submit_resp", "deliver", "deliver_resp", "active_test", "active_test_resp",
                                "terminate", "terminate_resp"}
              [] p = "smgp" -> {"login", "login_resp", "submit", "submit_resp", "deliver", "deliver_resp", "active_test", "active_test_resp",
                                "exit", "exit_resp"}
              [] p = "sgip" -> {"bind", "bind_resp", "submit", "submit_resp", "deliver", "deliver_resp", "report", "report_resp", "unbind", "unbind_resp"}

Cmd(p, kind) ==
  LET n == CASE p = "cmpp" -> ("connect" :> 1 @@ "terminate" :> 2 @@ "submit" :> 4 @@ "deliver" :> 5 @@ "active_test" :> 8
                               @@ "connect_resp" :> 1 @@ "terminate_resp" :> 2 @@ "submit_resp" :> 4 @@ "deliver_resp" :> 5 @@ "active_test_resp" :> 8)[kind]
             [] p = "smgp" -> ("login" :> 1 @@ "submit" :> 2 @@ "deliver" :> 3 @@ "active_test" :> 4 @@ "exit" :> 6
                               @@ "login_resp" :> 1 @@ "submit_resp" :> 2 @@ "deliver_resp" :> 3 @@ "active_test_resp" :> 4 @@ "exit_resp" :> 6)[kind]
             [] p = "sgip" -> ("bind" :> 1 @@ "unbind" :> 2 @@ "submit" :> 3 @@ "deliver" :> 4 @@ "report" :> 5
                               @@ "bind_resp" :> 1 @@ "unbind_resp" :> 2 @@ "submit_resp" :> 3 @@ "deliver_resp" :> 4 @@ "report_resp" :> 5)[kind]
      resp == kind \in {"connect_resp", "terminate_resp", "submit_resp", "deliver_resp", "active_test_resp", "login_resp", "exit_resp",
                        "bind_resp", "unbind_resp", "report_resp"}
  IN <<IF resp THEN 128 ELSE 0, 0, 0, n>>

RespOf(kind) == CASE kind = "connect" -> "connect_resp" [] kind = "submit" -> "submit_resp" [] kind = "deliver" -> "deliver_resp"
                  [] kind = "active_test" -> "active_test_resp" [] kind = "terminate" -> "terminate_resp" [] kind = "login" -> "login_resp"
                  [] kind = "exit" -> "exit_resp" [] kind = "bind" -> "bind_resp" [] kind = "unbind" -> "unbind_resp" [] kind = "report" -> "report_resp"
                  [] OTHER -> ""

--------------------------------------------------------------------------------
(* Optional parameters: two octets tag, two octets length, the value.         *)
EncTlv(o) == o.t \o BE(Len(o.v), 2) \o o.v
EncTlvs(os) == Cat([k \in 1..Len(os) |-> EncTlv(os[k])])
RECURSIVE DecTlvs(_)
DecTlvs(b) ==
  IF b = <<>> THEN [ok |-> TRUE, os |-> <<>>]
  ELSE IF Len(b) < 4 \/ Len(b) < 4 + Num(SubSeq(b, 3, 4)) THEN [ok |-> FALSE, os |-> <<>>]
  ELSE LET n == Num(SubSeq(b, 3, 4))
           o == [t |-> SubSeq(b, 1, 2), v |-> SubSeq(b, 5, 4 + n)]
           r == DecTlvs(Drop(b, 4 + n))
       IN [ok |-> r.ok, os |-> <<o>> \o r.os]

--------------------------------------------------------------------------------
(* Encoding a record of field values.                                         *)
EncField(f, r) ==
  CASE f.k \in {"num", "raw"} -> r[f.n]
    [] f.k = "str" -> Pad(r[f.n], f.w)
    [] f.k = "opt" -> Pad(r[f.n], f.w)
    [] f.k = "len" -> BE(Len(r[f.of]), f.w)
    [] f.k = "list" -> Cat([k \in 1..Len(r[f.n]) |-> Pad(r[f.n][k], f.w)])
    [] f.k = "var" -> r[f.n]
    [] f.k = "tlvs" -> EncTlvs(r[f.n])
Enc(lay, r) == Cat([k \in 1..Len(lay) |-> EncField(lay[k], r)])

(* Decoding.  st: "ok"; "err" if octets of a required field are missing;      *)
(* "lax" if the octets are not what a correct sender writes, but tolerable:   *)
(* then the decoder may refuse them or read them.  dirty: string fields with  *)
(* something behind their end.                                                *)
DecField(f, b, a) ==
  LET need == CASE f.k \in {"num", "raw", "str", "len"} -> f.w
                [] f.k = "list" -> f.w * Num(a.r[f.of])
                [] f.k = "var" -> Num(a.r[f.of])
                [] f.k = "opt" -> Min2(f.w, Len(b) - a.p)
                [] f.k = "tlvs" -> Len(b) - a.p
      x == SubSeq(b, a.p + 1, a.p + need)
      items == [k \in 1..(need \div f.w) |-> SubSeq(x, ((k - 1) * f.w) + 1, k * f.w)]
      t == DecTlvs(x)
      val == CASE f.k \in {"num", "raw", "len", "var"} -> x
               [] f.k \in {"str", "opt"} -> TrimNul(x)
               [] f.k = "list" -> [k \in 1..Len(items) |-> TrimNul(items[k])]
               [] f.k = "tlvs" -> t.os
      dirt == CASE f.k \in {"str", "opt"} -> ~Clean(x)
                [] f.k = "list" -> \E k \in 1..Len(items) : ~Clean(items[k])
                [] OTHER -> FALSE
  IN IF a.st = "err" \/ Len(b) - a.p < need THEN [a EXCEPT !.st = "err"]
     ELSE [p |-> a.p + need,
           r |-> (f.n :> val) @@ a.r,
           st |-> IF (f.k = "opt" /\ need < f.w) \/ (f.k = "tlvs" /\ ~t.ok) THEN "lax" ELSE a.st,
           dirty |-> IF dirt THEN a.dirty \cup {f.n} ELSE a.dirty]

Dec(lay, b) ==
  LET a == FoldLeft(LAMBDA acc, f : DecField(f, b, acc), [p |-> 0, r |-> <<>>, st |-> "ok", dirty |-> {}], lay)
  IN IF a.st = "ok" /\ a.p < Len(b) THEN [a EXCEPT !.st = "lax"] ELSE a

(* What a correct sender writes for these values, and nothing else.           *)
Canonical(lay, b) == LET d == Dec(lay, b) IN d.st = "ok" /\ d.dirty = {} /\ Enc(lay, d.r) = b

--------------------------------------------------------------------------------
(* Texts are sequences of code points.                                        *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(c) == IF c < 65536 THEN <<c \div 256, c % 256>>
            ELSE LET d == c - 65536 IN <<216 + (d \div 262144), (d \div 1024) % 256, 220 + ((d % 1024) \div 256), d % 256>>
ToUtf8(t) == Cat([k \in 1..Len(t) |-> Utf8(t[k])])
ToUcs2(t) == Cat([k \in 1..Len(t) |-> Utf16(t[k])])
Unit(b, k) == (b[k] * 256) + b[k + 1]
RECURSIVE FromUcs2(_)
(* [ok, t]: the text, unless the octets are not one *)
FromUcs2(b) ==
  IF b = <<>> THEN [ok |-> TRUE, t |-> <<>>]
  ELSE IF Len(b) < 2 THEN [ok |-> FALSE, t |-> <<>>]
  ELSE LET u == Unit(b, 1) IN
       IF u < 55296 \/ u > 57343 THEN LET r == FromUcs2(Drop(b, 2)) IN [ok |-> r.ok, t |-> <<u>> \o r.t]
       ELSE IF u > 56319 \/ Len(b) < 4 THEN [ok |-> FALSE, t |-> <<>>]
       ELSE LET w == Unit(b, 3) IN
            IF w < 56320 \/ w > 57343 THEN [ok |-> FALSE, t |-> <<>>]
            ELSE LET r == FromUcs2(Drop(b, 4)) IN [ok |-> r.ok, t |-> <<65536 + ((u - 55296) * 1024) + (w - 56320)>> \o r.t]

Plain(t) == \A k \in 1..Len(t) : t[k] < 128          (* sent as 8-bit text *)
Format(t) == IF Plain(t) THEN 0 ELSE 8
Octets(t) == IF Plain(t) THEN t ELSE ToUcs2(t)
Limit(t) == IF Plain(t) THEN 160 ELSE 140

(* Long messages: the standard six-octet concatenation header.                *)
HasUdh(c) == Len(c) >= 6 /\ c[1] = 5 /\ c[2] = 0 /\ c[3] = 3
Parts(content, limit, ref) ==
  IF Len(content) <= limit THEN <<content>>
  ELSE LET body == limit - 6
           n == (Len(content) + body - 1) \div body
       IN [k \in 1..n |-> <<5, 0, 3, ref, n, k>> \o SubSeq(content, ((k - 1) * body) + 1, Min2(k * body, Len(content)))]
(* ps is an admissible way to send content *)
Splits(ps, content, limit) ==
  IF Len(content) <= limit THEN ps = <<content>>
  ELSE /\ Len(ps) \in 2..255
       /\ \A k \in 1..Len(ps) : /\ Len(ps[k]) \in 7..limit
                                /\ HasUdh(ps[k])
                                /\ ps[k][4] = ps[1][4]
                                /\ ps[k][5] = Len(ps)
                                /\ ps[k][6] = k
       /\ Cat([k \in 1..Len(ps) |-> Drop(ps[k], 6)]) = content

--------------------------------------------------------------------------------
(* Submit options, applied in the order given; a later one wins, a value that *)
(* is not allowed counts as not given.                                        *)
NotGiven == <<>>
NoOptions == [n \in {"NeedReport", "MsgLevel", "FeeUsertype", "FeeTerminalType", "ServiceId", "FeeTerminalId", "FeeType", "FeeCode", "ValidTime",
                     "AtTime", "SpSubNo", "LinkID"} |-> NotGiven]
Zone == <<48, 51, 50, 43>>                             (* 032+ *)
ApplyOption(o, e) ==
  CASE e.o = "all" -> [n \in DOMAIN o |-> IF n \in DOMAIN e.v THEN e.v[n] ELSE NotGiven]
    [] e.o \in {"NeedReport", "FeeTerminalType"} -> [o EXCEPT ![e.o] = IF e.v[1] \in 0..1 THEN e.v ELSE NotGiven]
    [] e.o = "MsgLevel" -> [o EXCEPT !["MsgLevel"] = IF e.v[1] \in 0..9 THEN e.v ELSE NotGiven]
    [] e.o = "FeeUsertype" -> [o EXCEPT !["FeeUsertype"] = IF e.v[1] \in 0..3 THEN e.v ELSE NotGiven]
    [] e.o = "FeeType" -> [o EXCEPT !["FeeType"] = IF Len(e.v) = 2 /\ e.v[1] = 48 /\ e.v[2] \in 49..53 THEN e.v ELSE NotGiven]
    [] e.o = "AtTimeStr" -> [o EXCEPT !["AtTime"] = Take(e.v, 12) \o Zone]
    [] OTHER -> [o EXCEPT ![e.o] = e.v]
Options(es) == FoldLeft(ApplyOption, NoOptions, es)
Pick(given, default) == IF given = NotGiven THEN default ELSE given

(* What a submit for account ac with these options must contain.  valid is    *)
(* the end of the account's validity period counted from now.                 *)
CmppSubmit(ac, o, valid) ==
  [RegisteredDel |-> Pick(o.NeedReport, ac.NeedReport), MsgLevel |-> Pick(o.MsgLevel, ac.DefaultMsgLevel),
   ServiceId |-> Pick(o.ServiceId, ac.ServiceId), FeeUsertype |-> Pick(o.FeeUsertype, ac.FeeUserType),
   FeeTerminalId |-> Pick(o.FeeTerminalId, ac.FeeTerminalId), FeeTerminalType |-> Pick(o.FeeTerminalType, ac.FeeTerminalType),
   FeeType |-> Pick(o.FeeType, ac.FeeType), FeeCode |-> Pick(o.FeeCode, ac.FeeCode), ValidTime |-> Pick(o.ValidTime, valid), AtTime |-> o.AtTime,
   SrcId |-> ac.SmsDisplayNo \o o.SpSubNo, LinkID |-> Pick(o.LinkID, ac.LinkId)]
SmgpSubmit(ac, o, valid) ==
  [NeedReport |-> Pick(o.NeedReport, ac.NeedReport), Priority |-> Pick(o.MsgLevel, ac.DefaultMsgLevel), ServiceID |-> Pick(o.ServiceId, ac.ServiceId),
   ValidTime |-> Pick(o.ValidTime, valid), AtTime |-> o.AtTime, SrcTermID |-> ac.SmsDisplayNo \o o.SpSubNo, MsgFormat |-> <<15>>,
   FixedFee |-> ac.FixedFee]
   (* the fee options are CMPP's; where they are given SMGP may or may not honour them *)
   @@ (IF o.FeeType = NotGiven THEN [FeeType |-> ac.FeeType] ELSE <<>>)
   @@ (IF o.FeeCode = NotGiven THEN [FeeCode |-> ac.FeeCode] ELSE <<>>)
   @@ (IF o.FeeTerminalId = NotGiven THEN [ChargeTermID |-> ac.FeeTerminalId] ELSE <<>>)
SgipSubmit(ac, o, valid) ==
  [SPNumber |-> ac.SmsDisplayNo \o o.SpSubNo, Priority |-> Pick(o.MsgLevel, ac.DefaultMsgLevel), ReportFlag |-> Pick(o.NeedReport, ac.NeedReport),
   ServiceType |-> Pick(o.ServiceId, ac.ServiceId), ScheduleTime |-> o.AtTime, ExpireTime |-> Pick(o.ValidTime, valid)]

SubmitFields(p, ac, o, valid) == CASE p = "cmpp" -> CmppSubmit(ac, o, valid) [] p = "smgp" -> SmgpSubmit(ac, o, valid) [] p = "sgip" -> SgipSubmit(ac, o, valid)

--------------------------------------------------------------------------------
(* The list of optional parameters as an object: a sequence of [t, v].        *)
TlvAfter(l, op) ==
  CASE op.o \in {"add", "addobj"} -> Append(l, [t |-> op.t, v |-> op.v])
    [] op.o = "rm" -> SelectSeq(l, LAMBDA x : x.t # op.t)
    [] op.o = "rmobj" -> SelectSeq(l, LAMBDA x : x # [t |-> op.t, v |-> op.v])
    [] op.o = "read" -> LET d == DecTlvs(op.b) IN IF d.ok THEN d.os ELSE l
    [] OTHER -> l
TlvAnswer(l, op, a) ==
  CASE op.o \in {"add", "addobj"} -> TRUE
    [] op.o = "rm" -> a.n = Cardinality({k \in 1..Len(l) : l[k].t = op.t})
    [] op.o = "rmobj" -> a.n = Cardinality({k \in 1..Len(l) : l[k] = [t |-> op.t, v |-> op.v]})
    [] op.o = "len" -> a.n = Len(l)
    [] op.o = "get" -> LET f == SelectSeq(l, LAMBDA x : x.t = op.t) IN IF f = <<>> THEN a.err ELSE ~a.err /\ a.os = <<f[1]>>
    [] op.o = "all" -> a.os = SelectSeq(l, LAMBDA x : x.t = op.t)
    [] op.o = "write" -> ~a.err /\ a.b = EncTlvs(l)
    [] op.o = "read" -> LET d == DecTlvs(op.b) IN a.err = ~d.ok /\ (d.ok => a.os = d.os)
    [] op.o = "from" -> LET ok == Len(op.b) >= 4 /\ Len(op.b) >= 4 + Num(SubSeq(op.b, 3, 4))
                        IN a.err = ~ok /\ (ok => a.os = <<[t |-> SubSeq(op.b, 1, 2), v |-> SubSeq(op.b, 5, 4 + Num(SubSeq(op.b, 3, 4)))]>>)
    [] op.o = "to" -> ~a.err /\ a.b = EncTlv([t |-> op.t, v |-> op.v])
================================================================================
