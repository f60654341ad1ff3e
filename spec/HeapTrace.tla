----------------------------- MODULE HeapTrace -----------------------------
EXTENDS TraceBase
VARIABLES bag, asc
H == INSTANCE Heap
Seen == E.n = H!Count(bag') /\ E.front = H!Extreme(bag', asc')
Mutate == \/ Op("list") /\ H!List(E.l)
          \/ Op("push") /\ H!Push(E.x)
          \/ Op("pop")  /\ H!Pop
          \/ Op("pushq") /\ H!PushAll(E.l)
          \/ Op("popq") /\ H!PopAll(E.a)
          \/ Op("raw")  /\ H!Raw(E.ch)
          \/ Op("sift") /\ H!Raw(E.ch)
          \/ Op("copy") /\ UNCHANGED <<bag, asc>>
          \/ /\ Op("all") /\ UNCHANGED <<bag, asc>>
             /\ H!Inside(E.a) = TRUE
             /\ H!BagOf(Cardinality(DOMAIN bag), E.a) = bag
Tab == Op("tab") /\ H!Domain(E.m, E.asc = 1)
Drain == Op("drain") /\ H!Drain(E.a)
TraceInit == TraceStart /\ H!HInit
TraceNext == (Mutate /\ Seen) \/ Tab \/ Drain \/ (Finished /\ UNCHANGED <<bag, asc>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, bag, asc>>
=============================================================================
