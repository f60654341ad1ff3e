----------------------------- MODULE WidthsImpl ----------------------------
(* C22, the shape of the implementation: the dynamic program that chooses  *)
(* how to split the bits of a list into layers, from cf[b], the number of  *)
(* values longer than b bits, and the merging of layers when there are     *)
(* more than allowed. With it the loops that count units of a word, on     *)
(* words of WBits bits. Checked: layers are positive and add up, not more  *)
(* than allowed; before merging no other split has a lower estimate.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json
CONSTANTS Counts, MaxBits, Levels, WBits
VARIABLES cf, most, t, s, b, bk, sep, pq, pc
vars == <<cf, most, t, s, b, bk, sep, pq, pc>>
M == Len(cf) - 1                                             \* bits beyond the first
Descending == UNION {{f \in [1..n -> Counts] : \A j \in 1..(n - 1) : f[j] >= f[j + 1]} : n \in 1..MaxBits}
Cf(j) == cf[j + 1]
Rank(n) == (5 * n + 764) \div 4                              \* ((n-1)/64+1 + (n/512+1)*2) * 64, rounded down
Init == /\ cf \in Descending /\ most \in Levels /\ t = M
        /\ s = [j \in 1..(M + 1) |-> 0] /\ b = [j \in 1..(M + 1) |-> 0]
        /\ bk = <<>> /\ sep = {} /\ pq = {} /\ pc = "dp"
Est(i) == s[i + 1] + Cf(t) * (i - t) + Rank(Cf(t))
Dp == /\ pc = "dp" /\ t >= 0
      /\ LET is == (t + 1)..M
             best == IF is = {} THEN -1 ELSE Min({Est(i) : i \in is})
             pos == Min({i \in is : Est(i) = best})
             all == Cf(t) * (M + 1 - t)
         IN IF is # {} /\ best < all THEN s' = [s EXCEPT ![t + 1] = best] /\ b' = [b EXCEPT ![t + 1] = pos - t]
                                     ELSE s' = [s EXCEPT ![t + 1] = all] /\ b' = [b EXCEPT ![t + 1] = M + 1 - t]
      /\ t' = t - 1 /\ UNCHANGED <<cf, most, bk, sep, pq, pc>>
RECURSIVE Chain(_)
Chain(p) == IF p > M THEN <<>> ELSE <<b[p + 1]>> \o Chain(p + b[p + 1])
RECURSIVE Ends(_, _)
Ends(l, p) == IF l = <<>> THEN {} ELSE {p + l[1]} \union Ends(Tail(l), p + l[1])
Collect == /\ pc = "dp" /\ t < 0 /\ bk' = Chain(0)
           /\ sep' = Ends(bk', 0) /\ pq' = 1..(M - 1)
           /\ pc' = IF Len(bk') > most THEN "merge" ELSE "done"
           /\ UNCHANGED <<cf, most, t, s, b>>
\* borders are taken out, those first between which the fewest values end; equal ones in any order
Merge == /\ pc = "merge"
         /\ IF Cardinality(sep) > most /\ pq # {}
            THEN \E i \in pq : /\ \A j \in pq : Cf(i - 1) - Cf(i) <= Cf(j - 1) - Cf(j)
                               /\ pq' = pq \ {i} /\ sep' = sep \ {i} /\ UNCHANGED <<bk, pc>>
            ELSE /\ LET l == SetToSortSeq(sep, <) IN bk' = [k \in 1..Len(l) |-> l[k] - (IF k = 1 THEN 0 ELSE l[k - 1])]
                 /\ pc' = "done" /\ UNCHANGED <<pq, sep>>
         /\ UNCHANGED <<cf, most, t, s, b>>
Next == Dp \/ Collect \/ Merge
Spec == Init /\ [][Next]_vars
SumOf(l) == FoldLeft(LAMBDA a, x : a + x, 0, l)
SplitOK == pc = "done" => /\ Len(bk) >= 1 /\ Len(bk) <= most /\ SumOf(bk) = M + 1 /\ \A k \in DOMAIN bk : bk[k] > 0
\* the estimate of a split given by its inner borders
RECURSIVE Cost(_, _)
Cost(p, borders) == LET nx == {q \in borders : q > p} IN
    IF nx = {} THEN Cf(p) * (M + 1 - p) ELSE LET q == Min(nx) IN Cf(p) * (q - p) + Rank(Cf(p)) + Cost(q, borders)
Optimal == (pc = "merge" \/ (pc = "done" /\ pq = 1..(M - 1) /\ Cardinality(sep) = Len(bk))) =>
    /\ s[1] = Cost(0, Ends(bk, 0) \ {M + 1})
    /\ \A other \in SUBSET (1..M) : s[1] <= Cost(0, other)
\* ---- units: the loops on small words
Pow2(n) == 2 ^ n
BitLen(v) == IF v = 0 THEN 0 ELSE CHOOSE n \in 1..WBits : Pow2(n - 1) <= v /\ v < Pow2(n)
RECURSIVE Fits(_, _, _), AsList(_, _, _)
Fits(v, u, n) == IF n * u < WBits /\ v \div Pow2(n * u) # 0 THEN Fits(v, u, n + 1) ELSE n
AsList(v, l, n) == LET w == v \div Pow2(l[n]) IN IF w # 0 THEN AsList(w, l, n + 1) ELSE n
UnitsOK == (pc = "dp" /\ t = M /\ M = 0) => \A v \in 0..(Pow2(WBits) - 1) : \A u \in 1..(WBits + 1) :
    LET r == Fits(v, u, 1) IN r >= 1 /\ r * u >= BitLen(v) /\ (r = 1 \/ (r - 1) * u < BitLen(v))
ListsOK == (pc = "dp" /\ t = M /\ M = 0) => \A l \in [1..3 -> 1..3] : \A v \in 0..(Pow2(SumOf(l)) - 1) :
    LET r == AsList(v, l, 1)  bl == IF v = 0 THEN 0 ELSE CHOOSE n \in 1..9 : Pow2(n - 1) <= v /\ v < Pow2(n) IN
    /\ r \in 1..3 /\ SumOf(SubSeq(l, 1, r)) >= bl /\ (r = 1 \/ SumOf(SubSeq(l, 1, r - 1)) < bl)
Emit == (pc = "dp" /\ t = M) => PrintT("@@" \o ToJson(<<cf, most>>))
=============================================================================
