------------------------------- MODULE Widths ------------------------------
(* C22: how many units a word needs, histograms of bit lengths, layers.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, U64, SequencesExt
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* the least positive number of units of u bits that hold w
UnitsOK(r, w, u) == r >= 1 /\ r * u >= BitLen(w) /\ (r = 1 \/ (r - 1) * u < BitLen(w))
\* the least number of leading units
AsListOK(r, w, s) == /\ r \in 1..Len(s) /\ Sum(SubSeq(s, 1, r)) >= BitLen(w)
                     /\ r = 1 \/ Sum(SubSeq(s, 1, r - 1)) < BitLen(w)
\* a list as pairs [v, c]: c times the value v; the value 0 has one bit
Bits1(w) == IF w = << >> THEN 1 ELSE BitLen(w)
MaxBits(l) == FoldLeft(LAMBDA a, x : IF x.c > 0 /\ Bits1(x.v) > a THEN Bits1(x.v) ELSE a, 0, l)
Freq(l) == [b \in 1..MaxBits(l) |-> FoldLeft(LAMBDA a, x : IF Bits1(x.v) = b THEN a + x.c ELSE a, 0, l)]
Suffix(f) == [b \in 1..Len(f) |-> Sum(SubSeq(f, b, Len(f)))]
SplitOK(s, l, most) ==
    IF MaxBits(l) = 0 THEN s = << >>
    ELSE /\ Len(s) >= 1 /\ Len(s) <= most
         /\ \A k \in 1..Len(s) : s[k] > 0
         /\ Sum(s) = MaxBits(l)
=============================================================================
