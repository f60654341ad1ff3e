------------------------------ MODULE DacTrace -----------------------------
EXTENDS TraceBase
VARIABLES vals, units, layers
D == INSTANCE Dac
B01(b) == IF b THEN 1 ELSE 0
vars == <<vals, units, layers>>
Build == /\ Op("build") /\ D!Build(E.l, E.un)
         /\ E.size = Len(E.l) /\ E.empty = B01(E.l = << >>)
         /\ layers' = E.layers
         /\ E.l # << >> => (E.layers >= 1 /\ (E.un # << >> => E.layers = Len(E.un)))
Copy == Op("copy") /\ UNCHANGED vars /\ E.size = Len(vals)
All == /\ Op("all") /\ UNCHANGED vars
       /\ E.a = vals /\ E.span = Len(vals)
       /\ IF units # << >> THEN D!DepthsExact(vals, units, E.dep) ELSE D!DepthsConsistent(vals, layers, E.dep)
At == /\ Op("at") /\ UNCHANGED vars
      /\ IF E.i < Len(vals) THEN E.oor = 0 /\ E.x = vals[E.i + 1] ELSE E.oor = 1
Iters == /\ Op("iters") /\ UNCHANGED vars
         /\ E.d = E.x - E.y
         /\ E.eq = B01(E.x = E.y) /\ E.ne = B01(E.x # E.y) /\ E.lt = B01(E.x < E.y)
         /\ E.le = B01(E.x <= E.y) /\ E.gt = B01(E.x > E.y) /\ E.ge = B01(E.x >= E.y)
\* every way to move an iterator from position x to position y ends at y and there reads the element
Move == /\ Op("itermove") /\ UNCHANGED vars
        /\ \A k \in 1..Len(E.at) : E.at[k] = E.y
        /\ Len(E.at) = 6
        /\ IF E.y < Len(vals) THEN Len(E.r) = 6 /\ \A k \in 1..6 : E.r[k] = vals[E.y + 1] ELSE E.r = << >>
TraceInit == TraceStart /\ D!DInit /\ layers = 0
TraceNext == Build \/ Copy \/ All \/ At \/ Iters \/ Move \/ (Finished /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, vals, units, layers>>
=============================================================================
