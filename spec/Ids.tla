-------------------------------- MODULE Ids ---------------------------------
(* What the identifier generators promise, independent of how they work:     *)
(* callers call, calls return values; a value carries the generator's        *)
(* configuration, the clock's time where the format has one, and is new; for *)
(* the time-ordered kinds it is greater than every value returned before the *)
(* call was made.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Procs

VARIABLES g,      \* the generator: kind and configuration
          low,    \* low[p]: largest value returned before p's current call; None if p is not calling
          top,    \* largest value returned so far
          used    \* values returned
ivars == <<g, low, top, used>>

None == <<>>
Zero == <<-1, 0, 0, 0, 0>>

\* values are tuples of five numbers compared from the left
Less(a, b) == \E k \in 1..5 : (\A j \in 1..k-1 : a[j] = b[j]) /\ a[k] < b[k]
Max2(a, b) == IF Less(a, b) THEN b ELSE a

Ordered == g.kind = "sf64" \/ (g.kind = "sf32" /\ ~g.day)   \* 32-bit values start over every day

\* decimal digits of BCD octets
Nib(x, k) == (x \div (16 ^ k)) % 16
Digits(x, n) == \A k \in 0..n-1 : Nib(x, k) <= 9
RECURSIVE Dec(_, _)
Dec(x, n) == IF n = 0 THEN 0 ELSE (Dec(x \div 16, n - 1) * 10) + (x % 16)

\* the value carries the generator's configuration and a time the clock showed
Formed(v, clk) ==
  CASE g.kind = "sf64" -> v[1] >= 0 /\ v[3] \div 524288 = g.dc /\ (v[3] \div 4096) % 128 = g.w
                          /\ (v[1] > 0 \/ v[2] > 0 \/ v[3] > 0)
    [] g.kind = "sf32" -> v[1] >= 0 /\ (v[1] \div 4096) % 4 = g.dc /\ (v[1] \div 512) % 8 = g.w
    [] g.kind = "cyc" -> v[1] >= 0 /\ v[1] \div 536870912 = g.dc /\ (v[1] \div 67108864) % 8 = g.w
    [] g.kind = "bcd" -> /\ v[1] >= 0 /\ Digits(v[1], 6) /\ Digits(v[2], 4) /\ Digits(v[3], 4) /\ Digits(v[4], 6)
                         /\ Dec(v[1], 6) = g.code
                         /\ (Dec(v[2], 4) * 10000 + Dec(v[3], 4)) \in clk
    [] g.kind = "sgip" -> v[1] = g.hi /\ v[2] = g.lo /\ v[3] \in clk

Call(p) == /\ low[p] = None
           /\ low' = [low EXCEPT ![p] = top]
           /\ UNCHANGED <<g, top, used>>

Ret(p, v, clk) ==
  /\ low[p] # None
  /\ Formed(v, clk)
  /\ v \notin used
  /\ Ordered => Less(low[p], v)
  /\ low' = [low EXCEPT ![p] = None]
  /\ top' = Max2(top, v)
  /\ used' = used \union {v}
  /\ UNCHANGED g

(* Many calls at once, by callers that were all started after every earlier  *)
(* call had returned: runs lists what they got, sorted by value; a run is n  *)
(* values from a to z, d apart, that one caller got one after the other.     *)
Run(r, clk) == /\ r.n >= 1 /\ (r.n = 1 <=> r.a = r.z) /\ (r.n > 1 => Less(r.a, r.z) /\ r.d >= 1)
               /\ Formed(r.a, clk) /\ Formed(r.z, clk)
Rising(rs) == \A k \in 1..Len(rs)-1 : Less(rs[k].z, rs[k + 1].a)

(* (The checks over long lists are compared with TRUE so that TLC evaluates  *)
(* them as values.)                                                          *)
Batch(rs, clk) ==
  /\ \A p \in Procs : low[p] = None
  /\ (\A k \in 1..Len(rs) : Run(rs[k], clk)) = TRUE
  /\ Rising(rs) = TRUE
  /\ Ordered => /\ Less(top, rs[1].a)
                /\ (\A k \in 1..Len(rs) : IF rs[k].prev = 0 THEN rs[k].i = 0
                                          ELSE LET q == rs[rs[k].prev] IN rs[k].prev < k /\ q.p = rs[k].p /\ rs[k].i = q.i + q.n) = TRUE
  /\ top' = rs[Len(rs)].z
  /\ UNCHANGED <<g, low, used>>

\* everything that was ever returned, sorted
All(rs) == /\ (\A k \in 1..Len(rs) : rs[k].n >= 1 /\ (rs[k].n > 1 => rs[k].d >= 1)) = TRUE
           /\ Rising(rs) = TRUE
           /\ UNCHANGED ivars
=============================================================================
