---------------------------- MODULE InitArrTrace ---------------------------
EXTENDS TraceBase
VARIABLE arr
A == INSTANCE InitArr
Seen == E.n = Len(arr') /\ E.a = arr'        \* every element, after every operation
Mutate == \/ Op("init") /\ A!InitAll(E.size, E.x)
          \/ Op("list") /\ A!FromList(E.l)
          \/ Op("set")  /\ A!Set(E.i, E.x)
          \/ Op("setq") /\ A!SetMany(E.l)
          \/ Op("copy") /\ UNCHANGED arr      \* the history goes on with a copy
TraceInit == TraceStart /\ A!IInit
TraceNext == (Mutate /\ Seen) \/ (Finished /\ UNCHANGED arr)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, arr>>
=============================================================================
