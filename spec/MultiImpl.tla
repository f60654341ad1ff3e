----------------------------- MODULE MultiImpl ------------------------------
(* C08, the shape of the implementation: one array of bytes, records of a  *)
(* fixed number of bytes, a table of (position, size) per field; a value is *)
(* a number, split into bytes by shifting. Scaled: a byte has two values,  *)
(* a field at most K bytes. Refines Multi.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, NF, N
VARIABLES tab, bytes, last
vars == <<tab, bytes, last>>
View == <<tab, bytes>>
P2(e) == 2^e
Vals == 0..(P2(K) - 1)
Layouts == UNION {[1..m -> 1..K] : m \in 1..NF}
RECURSIVE SumTo(_, _)
SumTo(s, m) == IF m = 0 THEN 0 ELSE s[m] + SumTo(s, m - 1)
Table(s) == [f \in 1..Len(s) |-> [pos |-> SumTo(s, f - 1), size |-> s[f]]]
Block == tab[Len(tab)].pos + tab[Len(tab)].size
NumRecs == Len(bytes) \div Block
Sized(n) == [k \in 1..(n * Block) |-> IF k <= Len(bytes) THEN bytes[k] ELSE 0]
\* store the first width bytes of v at field f of record r
Store(bs, r, f, v, width) == [k \in 1..Len(bs) |-> LET p == k - 1 - r * Block - tab[f].pos IN
                                 IF p >= 0 /\ p < width THEN (v \div P2(p)) % 2 ELSE bs[k]]
Load(r, f, width) == LET base == r * Block + tab[f].pos IN
                     LET RECURSIVE G(_) G(p) == IF p = width THEN 0 ELSE bytes[base + p + 1] * P2(p) + G(p + 1) IN G(0)
RECURSIVE StoreAll(_, _, _, _)
StoreAll(bs, r, l, f) == IF f > Len(l) THEN bs ELSE StoreAll(Store(bs, r, f, l[f], tab[f].size), r, l, f + 1)
RECURSIVE StoreRecs(_, _, _, _)
StoreRecs(bs, from, to, l) == IF from >= to THEN bs ELSE StoreRecs(StoreAll(bs, from, l, 1), from + 1, to, l)
Min(a, b) == IF a < b THEN a ELSE b

Init == \E s \in Layouts : tab = Table(s) /\ bytes = << >> /\ last = <<"layout">>
Push(l)      == bytes' = StoreAll(Sized(NumRecs + 1), NumRecs, l, 1) /\ UNCHANGED tab
Resize(n, l) == bytes' = StoreRecs(Sized(n), NumRecs, n, l) /\ UNCHANGED tab
Set(r, f, v) == bytes' = Store(bytes, r, f, v, tab[f].size) /\ UNCHANGED tab
SetR(r, f, v, t) == bytes' = Store(bytes, r, f, v, Min(tab[f].size, t)) /\ UNCHANGED tab
Asn(r, l)    == bytes' = StoreAll(bytes, r, l, 1) /\ UNCHANGED tab
Lists == UNION {[1..m -> {0, 1, P2(K) - 1}] : m \in 0..Len(tab)}
Lab(l) == last' = l
Next == \/ \E l \in Lists : NumRecs < N /\ Push(l) /\ Lab(<<"push", l>>)
        \/ \E n \in 0..N, l \in Lists : Resize(n, l) /\ Lab(<<"resl", n, l>>)
        \/ \E r \in 0..(NumRecs - 1), f \in 1..Len(tab), v \in Vals : Set(r, f, v) /\ Lab(<<"set", r, f - 1, v>>)
        \/ \E r \in 0..(NumRecs - 1), f \in 1..Len(tab), v \in Vals, t \in 1..K : SetR(r, f, v % P2(t), t) /\ Lab(<<"setr", r, f - 1, v % P2(t), t>>)
        \/ \E r \in 0..(NumRecs - 1), l \in Lists : Asn(r, l) /\ Lab(<<"asn", r, l>>)
Spec == Init /\ [][Next]_vars
ToBytes(v) == [p \in 1..K |-> (v \div P2(p - 1)) % 2]
Fs == [f \in 1..Len(tab) |-> tab[f].size]
Recs == [r \in 1..NumRecs |-> [f \in 1..Len(tab) |-> ToBytes(Load(r - 1, f, tab[f].size))]]
A == INSTANCE Multi WITH K <- K, fs <- Fs, recs <- Recs
BL(l) == [k \in 1..Len(l) |-> ToBytes(l[k])]
Refines == [][ CASE last'[1] = "push" -> A!Push(BL(last'[2]))
                 [] last'[1] = "resl" -> A!Resize(last'[2], BL(last'[3]))
                 [] last'[1] = "set"  -> A!SetField(last'[2], last'[3], ToBytes(last'[4]))
                 [] last'[1] = "setr" -> A!SetRestricted(last'[2], last'[3], ToBytes(last'[4]), last'[5])
                 [] last'[1] = "asn"  -> A!AssignRec(last'[2], BL(last'[3])) ]_vars
GetOK == \A r \in 0..(NumRecs - 1), f \in 1..Len(tab), t \in 1..K :
            ToBytes(Load(r, f, Min(tab[f].size, t))) = A!GetRestricted(r, f - 1, t)
TypeOK == Len(bytes) = NumRecs * Block
Emit == PrintT("@@" \o ToJson(<<ToString(View), <<Fs>> \o last', ToString(View')>>))
=============================================================================
