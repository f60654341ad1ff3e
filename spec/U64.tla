------------------------------- MODULE U64 --------------------------------
(* 64-bit words in TLC's 32-bit integers.  A word is written either        *)
(*  - as its 16-bit digits, most significant first and without leading     *)
(*    zeros (0 is << >>), so that equality is structural, or               *)
(*  - as a function from bit positions 0..63 to {0,1}.                     *)
EXTENDS Naturals, Sequences, FiniteSets

Pow2 == [k \in 0..30 |-> 2^k]

BitLen16(d) == CHOOSE k \in 1..16 : Pow2[k-1] <= d /\ d < Pow2[k]   \* d > 0
\* number of binary digits; 0 for the word 0
BitLen(w) == IF w = << >> THEN 0 ELSE 16 * (Len(w) - 1) + BitLen16(w[1])

IsU64(w) == Len(w) <= 4 /\ (w # << >> => w[1] > 0) /\ \A k \in 1..Len(w) : w[k] \in 0..65535

\* digit number k of w counted from the least significant one (0)
Digit(w, k) == IF k < Len(w) THEN w[Len(w) - k] ELSE 0
BitOf(w, j) == (Digit(w, j \div 16) \div Pow2[j % 16]) % 2
Bits(w) == [j \in 0..63 |-> BitOf(w, j)]

RECURSIVE Trim(_)
Trim(s) == IF s = << >> \/ s[1] # 0 THEN s ELSE Trim(Tail(s))

DigitOfBits(b, k) == LET B(j) == b[16*k + j] * Pow2[j] IN
    B(0)+B(1)+B(2)+B(3)+B(4)+B(5)+B(6)+B(7)+B(8)+B(9)+B(10)+B(11)+B(12)+B(13)+B(14)+B(15)
OfBits(b) == Trim(<<DigitOfBits(b,3), DigitOfBits(b,2), DigitOfBits(b,1), DigitOfBits(b,0)>>)

\* unsigned comparison
Less(a, b) == \/ Len(a) < Len(b)
              \/ /\ Len(a) = Len(b)
                 /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..k-1 : a[j] = b[j]
Leq(a, b) == a = b \/ Less(a, b)
MaxOf(S) == CHOOSE m \in S : \A x \in S : Leq(x, m)

\* w shifted right by n bits, and w modulo 2^n
Shr(w, n) == LET b == Bits(w) IN OfBits([j \in 0..63 |-> IF j + n <= 63 THEN b[j + n] ELSE 0])
LowBits(w, n) == IF BitLen(w) <= n THEN w
                 ELSE LET b == Bits(w) IN OfBits([j \in 0..63 |-> IF j < n THEN b[j] ELSE 0])

\* the eight bytes of w, least significant first
Byte(w, k) == LET d == Digit(w, k \div 2) IN IF k % 2 = 0 THEN d % 256 ELSE d \div 256
=============================================================================
