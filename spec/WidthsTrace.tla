---------------------------- MODULE WidthsTrace ----------------------------
EXTENDS TraceBase, Widths
T == <<1, 2, 3, 4, 7, 8, 16, 32, 63, 64>>
Units == /\ Op("units") /\ Len(E.r) = 64 /\ Len(E.t) = 10
         /\ \A u \in 1..64 : UnitsOK(E.r[u], E.v, u)
         /\ UnitsOK(E.bits, E.v, 1) /\ UnitsOK(E.bytes, E.v, 8)
         /\ \A j \in 1..10 : UnitsOK(E.t[j], E.v, T[j])
AsList == Op("aslist") /\ AsListOK(E.r, E.v, E.s)
List == /\ Op("list")
        /\ LET f == Freq(E.l) IN E.f = f /\ E.cf = Suffix(f)
        /\ Len(E.sp) = Len(E.lv)
        /\ \A j \in 1..Len(E.sp) : SplitOK(E.sp[j], E.l, E.lv[j])
\* a list of more than 2^31 numbers: counts are pairs <<c \div 2^20, c % 2^20>>
B == INSTANCE Big WITH Base <- 1048576
BSum(s) == FoldLeft(LAMBDA a, x : B!Add(a, x), B!Zero, s)
Short(l) == [k \in 1..Len(l) |-> [v |-> l[k].v, c |-> 1]]
LongFreq(l) == [b \in 1..MaxBits(Short(l)) |-> BSum([k \in 1..Len(l) |-> IF Bits1(l[k].v) = b THEN l[k].c ELSE B!Zero])]
LongList == /\ Op("longlist") /\ \A k \in 1..Len(E.l) : E.l[k].c # B!Zero
            /\ LET f == LongFreq(E.l) IN E.f = f /\ E.cf = [b \in 1..Len(f) |-> BSum(SubSeq(f, b, Len(f)))]
            /\ Len(E.sp) = Len(E.lv)
            /\ \A j \in 1..Len(E.sp) : SplitOK(E.sp[j], Short(E.l), E.lv[j])
TraceInit == TraceStart
TraceNext == Units \/ AsList \/ List \/ LongList \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i>>
=============================================================================
