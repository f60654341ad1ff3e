------------------------------ MODULE SortImpl ------------------------------
(* C13, the shape of the implementation: positions [lo, hi) of a sequence  *)
(* are made a heap with the greatest element first, then the first element *)
(* is swapped behind the shrinking heap. For every short sequence, range   *)
(* and order: in the end the range is sorted, nothing else has changed.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS M, N
Orders == {"less", "greater", "mod", "none"}
VARIABLES in, lo, hi, ord, s, end, id, pc
vars == <<in, lo, hi, ord, s, end, id, pc>>
Mod == 2
Less(x, y) == CASE ord = "less" -> x < y [] ord = "greater" -> x > y [] ord = "mod" -> x % Mod < y % Mod [] OTHER -> FALSE
Size(e) == e - lo
At(t, k) == t[lo + k]                                     \* element k of the heap, k = 1..size
Swap(t, k, m) == [t EXCEPT ![lo + k] = t[lo + m], ![lo + m] = t[lo + k]]
RECURSIVE Down(_, _, _)
Down(t, e, k) == IF k > Size(e) \div 2 THEN t
                 ELSE LET l == 2 * k  r == 2 * k + 1
                          c == IF r <= Size(e) /\ Less(At(t, l), At(t, r)) THEN r ELSE l
                      IN IF Less(At(t, k), At(t, c)) THEN Down(Swap(t, k, c), e, c) ELSE t
Init == \E n \in 0..N : /\ in \in [1..n -> 0..(M - 1)] /\ lo \in 0..n /\ hi \in lo..n /\ ord \in Orders
                        /\ s = in /\ end = hi /\ id = (hi - lo) \div 2 /\ pc = "build"
Build == pc = "build" /\ id > 0 /\ s' = Down(s, end, id) /\ id' = id - 1 /\ UNCHANGED <<in, lo, hi, ord, end, pc>>
Built == pc = "build" /\ id = 0 /\ pc' = "take" /\ UNCHANGED <<in, lo, hi, ord, s, end, id>>
Take  == /\ pc = "take" /\ Size(end) > 1 /\ end' = end - 1
         /\ s' = Down(Swap(s, 1, Size(end)), end - 1, 1) /\ UNCHANGED <<in, lo, hi, ord, id, pc>>
Done  == pc = "take" /\ Size(end) <= 1 /\ pc' = "done" /\ UNCHANGED <<in, lo, hi, ord, s, end, id>>
Next == Build \/ Built \/ Take \/ Done
Spec == Init /\ [][Next]_vars
Count(t, x) == Cardinality({k \in 1..Len(t) : t[k] = x})
Outside == \A k \in 1..Len(in) : (k <= lo \/ k > hi) => s[k] = in[k]
Permutation == \A x \in 0..(M - 1) : Count(s, x) = Count(in, x)
HeapOK == pc # "build" => \A k \in 2..Size(end) : ~Less(At(s, k \div 2), At(s, k))
\* what has been taken out is in order and not before anything in the heap
TakenOK == pc # "build" => \A k \in (end + 1)..hi : \A m \in (lo + 1)..(k - 1) : ~Less(s[k], s[m])
Sorted == pc = "done" => \A k \in (lo + 1)..(hi - 1) : ~Less(s[k + 1], s[k])
Emit == pc = "done" => PrintT("@@" \o ToJson(<<in, lo, hi, ord>>))
=============================================================================
