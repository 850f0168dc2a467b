------------------------------- MODULE IdFormMC --------------------------------
(* Identifiers at the boundary values of their fields: packing loses nothing,  *)
(* writing can be read back, and later identifiers are greater.                *)
EXTENDS IdForm
CONSTANTS BREAK, EMIT
VARIABLES f, id, id2
Bit(n, k) == Octets(Zeros(n - 1 - k) \o <<1>> \o Zeros(k))
Ones(n) == [k \in 1..n |-> 1]
Times(w, n) == {Zeros(w), Widen(Octets(Ones(n)), w)} \cup {Widen(Bit(n, k), w) : k \in {0, 1, n - 2, n - 1}} \cup {Widen(Octets(Ones(k)), w) : k \in {7, n - 1}}
Nums(n) == {0, 1, Small(Ones(n)), Small(<<1>> \o Zeros(n - 1)), Small(Ones(n - 1))}
Ids(g) == [t : Times(g.w, g.t), dc : Nums(g.dc), wk : Nums(g.wk), n : Nums(g.n)]
Init == f \in {F64, F32} /\ id \in Ids(f) /\ id2 = id /\ last = <<>>
Next == /\ id2 = id /\ UNCHANGED <<f, id, last>>
        /\ \/ \E x \in Nums(f.n) \ {id.n} : id2' = [id EXCEPT !.n = x]
           \/ \E x \in Times(f.w, f.t) \ {id.t} : id2' = [id EXCEPT !.t = x]
Spec == Init /\ [][Next]_<<f, id, id2, last>>
Wide == IF BREAK = "narrow" THEN [f EXCEPT !.wk = @ - 1, !.dc = @ + 1] ELSE f
RoundTrip == Unpack(Wide, Pack(f, id)) = id
InOrder == Less(Pack(f, id), Pack(f, id2)) = (Less(id.t, id2.t) \/ (id.t = id2.t /\ id.n < id2.n))
Lossless == \A a, b \in {id, id2} : Hex(Pack(f, a)) = Hex(Pack(f, b)) => a = b
Digits == LET s == Fix(Pack(f, id), 20) IN Bcd(UnBcd(Bcd(s))) = Bcd(s) /\ UnBcd(Bcd(s)) = s /\ (Len(Dec(id.t)) <= 9 => Val(Dec(id.t)) = SubSeq(id.t, f.w - 3, f.w))
Emit == EMIT /\ id = id2 => PrintT("ID " \o ToString(Pack(f, id)))
================================================================================
