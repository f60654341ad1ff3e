---------------------------- MODULE OracleTrace ----------------------------
EXTENDS TraceBase
VARIABLES text, tr
O == INSTANCE OraclePaged WITH PageSize <- 256
B01(b) == IF b THEN 1 ELSE 0
Text == Op("text") /\ text' = E.t /\ tr' = O!OracleOf(E.t)
Queries == /\ Op("qs") /\ UNCHANGED <<text, tr>>
           /\ Len(E.a) = Len(E.q) /\ Len(E.n) = Len(E.q) /\ Len(E.m) = Len(E.q)
           /\ \A j \in 1..Len(E.q) : LET r == O!Reads(tr, E.q[j]) IN
                 E.n[j] = r /\ E.m[j] = r /\ E.a[j] = B01(r = Len(E.q[j]))
TraceInit == TraceStart /\ text = <<>> /\ tr = O!Start.tr
TraceNext == Text \/ Queries \/ (Finished /\ UNCHANGED <<text, tr>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, text, tr>>
=============================================================================
