----------------------------- MODULE MatchTrace ----------------------------
EXTENDS TraceBase, Match
VARIABLES key
Key == Op("key") /\ Len(E.k) > 0 /\ key' = E.k
\* the answers of the seven matchers made for the key, used on text after text, and of the seven functions
Text == /\ Op("text") /\ UNCHANGED key /\ Len(key) > 0 /\ Len(E.r) = 14
        /\ LET o == Occ(key, E.t) IN \A j \in 1..14 : E.r[j] = o
TraceInit == TraceStart /\ key = <<>>
TraceNext == Key \/ Text \/ (Finished /\ UNCHANGED key)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, key>>
=============================================================================
