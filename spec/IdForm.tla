-------------------------------- MODULE IdForm --------------------------------
(* What an identifier says, and how identifiers and times are written: the    *)
(* time, data centre, worker and number in a snowflake identifier (64 and 32  *)
(* bits), SGIP's three words, decimal and hexadecimal writing with leading    *)
(* zeros, and BCD.                                                            *)
(*                                                                            *)
(* Numbers beyond TLC's are octets, most significant first; texts are octets. *)
EXTENDS Naturals, Sequences, TLC, SequencesExt

Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE BE(_, _)
BE(x, w) == IF w = 0 THEN <<>> ELSE BE(x \div 256, w - 1) \o <<x % 256>>

(* Octets as numbers of a fixed width.                                        *)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == Last(a) + Last(b) + c IN AddC(Front(a), Front(b), s \div 256) \o <<s % 256>>
Add(a, b) == AddC(a, b, 0)
RECURSIVE MulC(_, _, _)
MulC(a, k, c) == IF a = <<>> THEN <<>> ELSE LET s == (Last(a) * k) + c IN MulC(Front(a), k, s \div 256) \o <<s % 256>>
Mul(a, k) == MulC(a, k, 0)
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
(* Division by ten: <<quotient, remainder>>.                                  *)
Ten(a) == FoldLeft(LAMBDA s, o : LET x == (s[2] * 256) + o IN <<Append(s[1], x \div 10), x % 10>>, <<<<>>, 0>>, a)
Nil(a) == \A k \in 1..Len(a) : a[k] = 0

(* Octets as bits.                                                            *)
Pow(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
Bits(o) == [k \in 1..(8 * Len(o)) |-> (o[((k - 1) \div 8) + 1] \div Pow(7 - ((k - 1) % 8))) % 2]
Octets(b) == LET p == Zeros((8 - (Len(b) % 8)) % 8) \o b
             IN [k \in 1..(Len(p) \div 8) |-> FoldLeft(LAMBDA a, x : (a * 2) + x, 0, SubSeq(p, (8 * k) - 7, 8 * k))]
Widen(o, w) == Zeros(w - Len(o)) \o o
Small(b) == FoldLeft(LAMBDA a, x : (a * 2) + x, 0, b)
Of(x, n) == LET b == Bits(BE(x, 4)) IN SubSeq(b, 33 - n, 32)

--------------------------------------------------------------------------------
(* Snowflakes: a zero bit, the time, data centre, worker, number.  t: octets  *)
(* of milliseconds since 2020-01-01 (64) or the second of the day (32).       *)
F64 == [w |-> 8, t |-> 41, dc |-> 3, wk |-> 7, n |-> 12]
F32 == [w |-> 4, t |-> 17, dc |-> 2, wk |-> 3, n |-> 9]
Pack(f, id) == Octets(<<0>> \o SubSeq(Bits(id.t), (8 * Len(id.t)) - f.t + 1, 8 * Len(id.t)) \o Of(id.dc, f.dc) \o Of(id.wk, f.wk) \o Of(id.n, f.n))
Unpack(f, o) == LET b == Bits(o) IN
  [t  |-> Widen(Octets(SubSeq(b, 2, f.t + 1)), f.w),
   dc |-> Small(SubSeq(b, f.t + 2, f.t + f.dc + 1)),
   wk |-> Small(SubSeq(b, f.t + f.dc + 2, f.t + f.dc + f.wk + 1)),
   n  |-> Small(SubSeq(b, f.t + f.dc + f.wk + 2, 8 * f.w))]

(* 2020-01-01 00:00:00 in China, in milliseconds since 1970.                  *)
Epoch == <<0, 0, 1, 111, 92, 175, 116, 0>>
Ms(day, ms) == Add(Mul(Mul(BE(day, 8), 86400), 1000), BE(ms, 8))

--------------------------------------------------------------------------------
(* Writing.                                                                   *)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(o) == FlattenSeq([k \in 1..Len(o) |-> <<Digit(o[k] \div 16), Digit(o[k] % 16)>>])
RECURSIVE Dec(_)
Dec(o) == LET q == Ten(o) IN (IF Nil(q[1]) THEN <<>> ELSE Dec(q[1])) \o <<48 + q[2]>>
Pad0(s, n) == IF Len(s) >= n THEN s ELSE [k \in 1..(n - Len(s)) |-> 48] \o s
(* exactly n digits: the low ones                                             *)
Fix(o, n) == LET s == Pad0(Dec(o), n) IN SubSeq(s, Len(s) - n + 1, Len(s))
Two(x) == <<48 + (x \div 10), 48 + (x % 10)>>
Twos(xs) == FlattenSeq([k \in 1..Len(xs) |-> Two(xs[k])])
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN Zeros(4) ELSE Add(Mul(Val(Front(s)), 10), BE(Last(s) - 48, 4))
Words(ws) == Pad0(Dec(ws[1]), 10) \o Pad0(Dec(ws[2]), 10) \o Hex(ws[3])
Bcd(s) == [k \in 1..(Len(s) \div 2) |-> ((s[(2 * k) - 1] - 48) * 16) + s[2 * k] - 48]
UnBcd(o) == FlattenSeq([k \in 1..Len(o) |-> <<48 + (o[k] \div 16), 48 + (o[k] % 16)>>])

--------------------------------------------------------------------------------
(* A generator at work.  last: the time in the identifier drawn last, and the *)
(* latest second the clock showed at a draw.  A time is the clock's own, but  *)
(* never earlier than that of the identifier before: then the clock was set   *)
(* back.  The 32-bit ones know the second of the day only: half a day or more *)
(* after the last draw, and at the first, no clock was set back.              *)
VARIABLE last
HalfDay == 43200
Before(a, b) == (a < b /\ b - a < HalfDay) \/ (a > b /\ a - b > HalfDay)
Sec(o) == (((o[2] * 256) + o[3]) * 256) + o[4]
Abs(day, ms) == (day * 86400) + (ms \div 1000)
Draw64(dc, wk, day, ms, val) ==
  LET id == TLCEval(Unpack(F64, val))
      at == TLCEval(Add(Epoch, id.t))
      now == TLCEval(Ms(day, ms))
  IN /\ val[1] < 128 /\ id.dc = dc /\ id.wk = wk
     /\ (IF last = <<>> THEN at = now ELSE IF Less(last[1], now) THEN at = now ELSE ~Less(at, last[1])) = TRUE
     /\ last' = <<at, 0>>
Draw32(dc, wk, day, ms, val) ==
  LET id == TLCEval(Unpack(F32, val))
      at == TLCEval(Sec(id.t))
      now == ms \div 1000
      abs == Abs(day, ms)
  IN /\ val[1] < 128 /\ id.dc = dc /\ id.wk = wk /\ at < 86400
     /\ (IF last = <<>> THEN at = now
         ELSE IF now # Sec(last[1]) /\ (abs - last[2] >= HalfDay \/ Before(Sec(last[1]), now)) THEN at = now
         ELSE ~Before(at, Sec(last[1]))) = TRUE
     /\ last' = <<id.t, IF (last # <<>>) /\ last[2] > abs THEN last[2] ELSE abs>>
(* What reading the identifier back (r) must say; "at" is absolute for 64.    *)
Reads(f, val, r) ==
  LET id == Unpack(f, val) IN
  /\ r.dc = id.dc /\ r.wk = id.wk /\ r.n = id.n /\ r.s = Hex(val)
  /\ r.t = IF f.w = 8 THEN Add(Epoch, id.t) ELSE id.t
================================================================================
