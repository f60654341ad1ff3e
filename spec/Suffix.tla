------------------------------- MODULE Suffix ------------------------------
(* C19: what a suffix array and its common prefixes are. Positions from 0. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* the definition: suffix a is less than suffix b (a different from b)
RECURSIVE Less(_, _, _)
Less(t, a, b) == IF a = Len(t) THEN b # Len(t)
                 ELSE IF b = Len(t) THEN FALSE
                 ELSE IF t[a + 1] # t[b + 1] THEN t[a + 1] < t[b + 1]
                 ELSE Less(t, a + 1, b + 1)
IsSA(t, sa) == /\ Len(sa) = Len(t)
               /\ {sa[j] : j \in 1..Len(sa)} = 0..(Len(t) - 1)
               /\ \A r \in 1..(Len(sa) - 1) : Less(t, sa[r], sa[r + 1])
\* the same by ranks, in linear time (SuffixMC: the two agree)
Pages == INSTANCE Paged WITH PageSize <- 256
Inverse(sa, n) == Pages!FoldLeft(LAMBDA f, j : Pages!Put(f, sa[j], j), TLCEval(Pages!Const(n + 1, 0)), [j \in 1..Len(sa) |-> j])
IsSAFast(t, sa) ==
    /\ Len(sa) = Len(t)
    /\ \A j \in 1..Len(sa) : sa[j] \in 0..(Len(t) - 1)
    /\ LET inv == Inverse(sa, Len(t))
           rk(p) == Pages!Get(inv, p)
       IN /\ \A j \in 1..Len(sa) : rk(sa[j]) = j                 \* no position twice
          /\ \A r \in 1..(Len(sa) - 1) :
                LET a == sa[r] b == sa[r + 1]
                IN \/ t[a + 1] < t[b + 1]
                   \/ t[a + 1] = t[b + 1] /\ rk(a + 1) < rk(b + 1)
IsCommon(t, a, b, k) == /\ a + k <= Len(t) /\ b + k <= Len(t)
                        /\ \A d \in 1..k : t[a + d] = t[b + d]
                        /\ a + k = Len(t) \/ b + k = Len(t) \/ t[a + k + 1] # t[b + k + 1]
IsLCP(t, sa, lcp) == /\ Len(lcp) = Len(t)
                     /\ \A r \in 1..(Len(t) - 1) : IsCommon(t, sa[r], sa[r + 1], lcp[r])
                     /\ Len(t) > 0 => lcp[Len(t)] = 0
\* the same in linear time for a true suffix array: the suffix one further on
\* shares at most one letter less with its successor, so only the letters
\* after that need comparing (SuffixImpl: the two agree)
IsLCPFast(t, sa, lcp) ==
    /\ Len(lcp) = Len(t)
    /\ LET inv == Inverse(sa, Len(t))
           rk(p) == Pages!Get(inv, p)
       IN \A p \in 0..(Len(t) - 1) :
            LET r == rk(p) k == lcp[r]
                lo == IF p > 0 /\ lcp[rk(p - 1)] > 0 THEN lcp[rk(p - 1)] - 1 ELSE 0
            IN IF r = Len(t) THEN k = 0
               ELSE LET b == sa[r + 1]
                    IN /\ k >= lo /\ p + k <= Len(t) /\ b + k <= Len(t)
                       /\ \A d \in (lo + 1)..k : t[p + d] = t[b + d]
                       /\ p + k = Len(t) \/ b + k = Len(t) \/ t[p + k + 1] # t[b + k + 1]
=============================================================================
