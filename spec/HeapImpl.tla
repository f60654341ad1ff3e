------------------------------ MODULE HeapImpl ------------------------------
(* C12, the shape of the implementation: a binary heap in a sequence, node *)
(* k has the children 2k and 2k+1; sifting down swaps with the better      *)
(* child while the order does not hold strictly. Refines Heap.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS M, N
VARIABLES base, asc, last
vars == <<base, asc, last>>
View == <<base, asc>>
Before(up, x, y) == IF up THEN x < y ELSE x > y
Swap(s, p, q) == [s EXCEPT ![p] = s[q], ![q] = s[p]]
RECURSIVE Down(_, _, _), Up(_, _, _), Build(_, _, _)
Down(s, up, k) == IF k > Len(s) \div 2 THEN s
                  ELSE LET l == 2 * k  r == 2 * k + 1
                           c == IF r <= Len(s) /\ ~Before(up, s[l], s[r]) THEN r ELSE l
                       IN IF ~Before(up, s[k], s[c]) THEN Down(Swap(s, k, c), up, c) ELSE s
Up(s, up, k) == IF k > 1 /\ Before(up, s[k], s[k \div 2]) THEN Up(Swap(s, k, k \div 2), up, k \div 2) ELSE s
Build(s, up, k) == IF k = 0 THEN s ELSE Build(Down(s, up, k), up, k - 1)
Made(s, up) == Build(s, up, Len(s) \div 2)
Lists == UNION {[1..n -> 0..(M - 1)] : n \in 0..N}
Init == base = << >> /\ asc \in BOOLEAN /\ last = <<"tab">>
List(l) == base' = Made(l, asc) /\ UNCHANGED asc
Push(x) == base' = Up(Append(base, x), asc, Len(base) + 1) /\ UNCHANGED asc
Pop     == base # << >> /\ LET s == Swap(base, 1, Len(base)) IN base' = Down(SubSeq(s, 1, Len(s) - 1), asc, 1) /\ UNCHANGED asc
Raw(k, x) == base' = Made([base EXCEPT ![k] = x], asc) /\ UNCHANGED asc
\* a stored value made a later one, and sifted down from its place only
Sift(k, x) == ~Before(asc, x, base[k]) /\ base' = Down([base EXCEPT ![k] = x], asc, k) /\ UNCHANGED asc
Next == \/ \E l \in Lists : base = << >> /\ List(l) /\ last' = <<"list", l>>
        \/ \E x \in 0..(M - 1) : Len(base) < N /\ Push(x) /\ last' = <<"push", x>>
        \/ Pop /\ last' = <<"pop">>
        \/ \E k \in 1..Len(base), x \in 0..(M - 1) : Raw(k, x) /\ last' = <<"raw", k, x, base[k]>>
        \/ \E k \in 1..Len(base), x \in 0..(M - 1) : Sift(k, x) /\ last' = <<"sift", k, x, base[k]>>
Spec == Init /\ [][Next]_vars
HeapOrder == \A k \in 2..Len(base) : ~Before(asc, base[k], base[k \div 2])
Bag == [x \in 0..(M - 1) |-> Cardinality({k \in 1..Len(base) : base[k] = x})]
A == INSTANCE Heap WITH bag <- Bag
FrontOK == base # << >> => base[1] = A!Extreme(Bag, asc)
Refines == [][ CASE last'[1] = "list" -> A!List(last'[2])
                 [] last'[1] = "push" -> A!Push(last'[2])
                 [] last'[1] = "pop"  -> A!Pop
                 [] last'[1] \in {"raw", "sift"} -> A!Raw(<<<<last'[4], last'[3]>>>>) ]_vars
Emit == PrintT("@@" \o ToJson(<<ToString(View), last', ToString(View')>>))
=============================================================================
