------------------------------- MODULE Words -------------------------------
(* C21: the word operations, as operations on functions from bit positions *)
(* to {0,1}. b: 64 bits; positions from 0.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, U64, FiniteSetsExt
Pop(b, from, to) == Cardinality({j \in from..(to - 1) : b[j] = 1})
Ones(b) == {j \in 0..63 : b[j] = 1}
\* fields of two and of three bits, the high bit written first
Fields2(b, hi, lo) == Cardinality({k \in 0..31 : b[2*k + 1] = hi /\ b[2*k] = lo})
Fields3(b, hi, mid, lo) == Cardinality({k \in 0..20 : b[3*k + 2] = hi /\ b[3*k + 1] = mid /\ b[3*k] = lo})
\* zeros below the lowest one, above the highest one, in positions from..to-1
Ctz(b, from, to) == LET s == {j \in from..(to - 1) : b[j] = 1} IN IF s = {} THEN to - from ELSE Min(s) - from
Clz(b, from, to) == LET s == {j \in from..(to - 1) : b[j] = 1} IN IF s = {} THEN to - from ELSE to - 1 - Max(s)
\* exchanging neighbouring groups of d bits: d a power of two
Xor(j, m) == LET X[k \in 0..8] == IF k = 8 THEN 0
                 ELSE (((j \div Pow2[k]) + (m \div Pow2[k])) % 2) * Pow2[k] + X[k + 1]
             IN X[0]
Exchanged(b, d) == [j \in 0..63 |-> b[IF (j \div d) % 2 = 0 THEN j + d ELSE j - d]]
Extract(b, s, l) == [j \in 0..63 |-> IF j < l /\ s + j <= 63 THEN b[s + j] ELSE 0]
\* 256 bits from four words
Bits256(x) == LET B == [k \in 1..4 |-> Bits(x[k])] IN [j \in 0..255 |-> B[j \div 64 + 1][j % 64]]
Words256(b) == [k \in 1..4 |-> OfBits([j \in 0..63 |-> b[64 * (k - 1) + j]])]
\* the lowest n bytes in print: digits from the highest, 2 (a blank) behind each byte, 3 (the end of the line)
Shown(b, n) == [k \in 1..(9 * n + 1) |-> IF k = 9 * n + 1 THEN 3 ELSE IF k % 9 = 0 THEN 2
                                         ELSE b[8 * (n - 1 - ((k - 1) \div 9)) + 8 - (k % 9)]]
XorMapped(b, m) == [j \in 0..255 |-> b[Xor(j, m)]]
=============================================================================
