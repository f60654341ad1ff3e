---------------------------- MODULE RankSelect -----------------------------
(* C02, C03: what rank and select of a bit sequence are.                   *)
(* The declarative definitions come first; the linear-time characterisations *)
(* used on long recorded sequences are proved equivalent to them for small *)
(* sequences by TLC (RankSelectMC).                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

\* positions are 0-based, sequences 1-based
Rank(s, x)   == Cardinality({k \in 1..x : s[k] = 1})
Rank0(s, x)  == Cardinality({k \in 1..x : s[k] = 0})
Ones(s)      == Rank(s, Len(s))
\* the position of the (k+1)-th one
Select(s, k) == CHOOSE x \in 0..(Len(s) - 1) : s[x + 1] = 1 /\ Rank(s, x) = k

\* r is the table of all ranks 0..Len(s)
IsRankTable(s, r) ==
    /\ Len(r) = Len(s) + 1
    /\ r[1] = 0
    /\ \A k \in 1..Len(s) : r[k + 1] = r[k] + s[k]
IsRank0Table(s, r) ==
    /\ Len(r) = Len(s) + 1
    /\ r[1] = 0
    /\ \A k \in 1..Len(s) : r[k + 1] = r[k] + (1 - s[k])
\* e is the table of all selects, n the number of ones
IsSelectTable(s, n, e) ==
    /\ Len(e) = n
    /\ \A k \in 1..n : e[k] \in 0..(Len(s) - 1) /\ s[e[k] + 1] = 1
    /\ \A k \in 1..(n - 1) : e[k] < e[k + 1]

(* Long sequences are recorded as 16-bit digits d (least significant bit first, *)
(* the last one padded with zeros), n bits in total.                       *)
P2 == [k \in 0..16 |-> 2^k]
Pop8 == [x \in 0..255 |-> Cardinality({k \in 0..7 : (x \div P2[k]) % 2 = 1})]
Pop16(x) == Pop8[x % 256] + Pop8[x \div 256]
DigitBit(d, x) == (d[(x \div 16) + 1] \div P2[x % 16]) % 2
\* r[k+1] is the rank at 16k, for 16k <= n
IsCoarseRankTable(d, n, r) ==
    /\ Len(r) = n \div 16 + 1
    /\ r[1] = 0
    /\ \A k \in 1..(n \div 16) : r[k + 1] = r[k] + Pop16(d[k])
RankVia(d, r, x) == r[(x \div 16) + 1] + (IF x % 16 = 0 THEN 0 ELSE Pop16(d[(x \div 16) + 1] % P2[x % 16]))
OnesD(d) == FoldLeft(LAMBDA a, x : a + Pop16(x), 0, d)
IsSelectTableD(d, n, ones, e) ==
    /\ Len(e) = ones
    /\ \A k \in 1..ones : e[k] \in 0..(n - 1) /\ DigitBit(d, e[k]) = 1
    /\ \A k \in 1..(ones - 1) : e[k] < e[k + 1]
=============================================================================
