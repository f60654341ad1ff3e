--------------------------- MODULE MultiBitTrace ---------------------------
EXTENDS TraceBase
VARIABLES seq, built
M == INSTANCE MultiBit

Mutate == \/ Op("sets")  /\ M!SetMany(E.l)
          \/ Op("seq")   /\ E.at = Len(seq) /\ M!Extend(E.l)
          \/ Op("grow")  /\ M!GrowTo(E.i)
          \/ Op("build") /\ M!Build
          \/ Op("copy")  /\ UNCHANGED <<seq, built>>
All   == Op("all") /\ UNCHANGED <<seq, built>> /\ E.n = Len(seq) /\ E.a = seq
Ranks == Op("ranks") /\ UNCHANGED <<seq, built>> /\ built /\ M!IsRankTable(seq, E.r, {0})

TraceInit == TraceStart /\ M!MBInit
TraceNext == Mutate \/ All \/ Ranks \/ (Finished /\ UNCHANGED <<seq, built>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, seq, built>>
=============================================================================
