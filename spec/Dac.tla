-------------------------------- MODULE Dac --------------------------------
(* C07: a directly addressable code vector, as the list of values and the  *)
(* layer widths in use (unknown, << >>, when the code chose them itself).  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, U64, SequencesExt
VARIABLES vals, units
DInit == vals = << >> /\ units = << >>

SumOf(u) == FoldLeft(LAMBDA a, x : a + x, 0, u)
Covers(u, l) == \A k \in 1..Len(l) : BitLen(l[k]) <= SumOf(u)
\* number of layers beyond the first that a value of b bits needs: the least d with
\* u[1] + .. + u[d+1] >= b
DepthOf(u, b) == CHOOSE d \in 0..(Len(u) - 1) :
                    /\ SumOf(SubSeq(u, 1, d + 1)) >= b
                    /\ d > 0 => SumOf(SubSeq(u, 1, d)) < b
DepthTable(u) == [b \in 0..64 |-> IF b <= SumOf(u) THEN DepthOf(u, b) ELSE 99]

Build(l, u) == /\ (u # << >> => Covers(u, l))
               /\ vals' = l /\ units' = u

\* the depths dep reported for the values l, given the widths u
DepthsExact(l, u, dep) == LET t == DepthTable(u) IN
    Len(dep) = Len(l) /\ \A k \in 1..Len(l) : dep[k] = t[BitLen(l[k])]
\* with widths chosen by the code: the depth is a function of the bit length, growing with it,
\* between 0 and the number of layers - 1, reached by the longest values
DepthsConsistent(l, layers, dep) ==
    /\ Len(dep) = Len(l)
    /\ LET bl == [k \in 1..Len(l) |-> LET b == BitLen(l[k]) IN IF b = 0 THEN 1 ELSE b]
           L == {bl[k] : k \in 1..Len(l)}
           D == [b \in L |-> {dep[k] : k \in {j \in 1..Len(l) : bl[j] = b}}]
       IN /\ \A b \in L : Cardinality(D[b]) = 1 /\ D[b] \subseteq 0..(layers - 1)
          /\ \A b, c \in L : b < c => \E x \in D[b], y \in D[c] : x <= y
          /\ l # << >> => layers - 1 \in D[CHOOSE m \in L : \A b \in L : b <= m]
=============================================================================
