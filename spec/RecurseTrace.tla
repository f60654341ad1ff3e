---------------------------- MODULE RecurseTrace ---------------------------
EXTENDS TraceBase
VARIABLES p, stack, log
R == INSTANCE Recurse
\* a walk that is complete: all steps of the machine in one
WalkOp == /\ Op("walk") /\ p' = E.p /\ stack' = << >> /\ log' = << >>
          /\ E.n = Len(E.p) + 1
          /\ R!Complete(E.p, E.log) = TRUE
\* times in microseconds: the process ran once, within the time reported, within the time around it (rounded)
TimeOp == /\ Op("time") /\ UNCHANGED <<p, stack, log>>
          /\ E.runs = 1 /\ E.in <= E.got + 1 /\ E.got <= E.out + 1
StopOp == /\ Op("stop") /\ UNCHANGED <<p, stack, log>>
          /\ \A k \in 1..Len(E.r) : E.r[k] >= 300 * k - 1 /\ E.r[k] <= E.out + 1
          /\ \A k \in 1..(Len(E.r) - 1) : E.r[k] <= E.r[k + 1] + 1
TraceInit == TraceStart /\ p = << >> /\ stack = << >> /\ log = << >>
TraceNext == WalkOp \/ TimeOp \/ StopOp \/ (Finished /\ UNCHANGED <<p, stack, log>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, p, stack, log>>
=============================================================================
