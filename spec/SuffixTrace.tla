---------------------------- MODULE SuffixTrace ----------------------------
EXTENDS TraceBase, Suffix
VARIABLES text
Shown(t) == /\ E.s = t /\ E.ch = t
            /\ (IsSAFast(t, E.sa) /\ IsLCPFast(t, E.sa, E.lcp)) = TRUE      \* (as a value, see SortTrace)
            /\ E.sb = E.sa /\ E.lb = E.lcp
Text == Op("text") /\ text' = E.t /\ Shown(E.t)
Again == Op("again") /\ UNCHANGED text /\ Shown(text)
Min(a, b) == IF a < b THEN a ELSE b
Suf == /\ Op("suf") /\ UNCHANGED text /\ Len(E.r) = Len(E.q)
       /\ \A j \in 1..Len(E.q) :
             LET a == E.q[j][1] n == E.q[j][2]
             IN E.r[j] = SubSeq(text, a + 1, IF n < 0 THEN Len(text) ELSE Min(Len(text), a + n))
TraceInit == TraceStart /\ text = <<>>
TraceNext == Text \/ Again \/ Suf \/ (Finished /\ UNCHANGED text)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, text>>
=============================================================================
