---------------------------- MODULE HashMapTrace ---------------------------
EXTENDS TraceBase
VARIABLES nk, map
H == INSTANCE HashMap WITH Objs <- {0, 1}
B01(b) == IF b THEN 1 ELSE 0
Sizes == /\ E.s0 = Cardinality(DOMAIN map'[0]) /\ E.s1 = Cardinality(DOMAIN map'[1])
\* the keys are different from each other
Keys == /\ Op("keys") /\ Len(E.k) = E.n /\ Cardinality({E.k[j] : j \in 1..E.n}) = E.n
        /\ H!Universe(E.n)
Mutate == \/ Keys
          \/ Op("set") /\ H!Set(E.o, E.k, E.v)
          \/ Op("del") /\ H!Erase(E.o, E.k)
          \/ Op("rsv") /\ H!Reserve(E.o)
          \/ Op("cpy") /\ H!Copy(E.o, E.p)
          \/ Op("new") /\ H!New(E.o)
          \/ /\ Op("all") /\ UNCHANGED <<nk, map>>       \* every key looked up
             /\ Len(E.p) = nk /\ Len(E.v) = nk
             /\ \A j \in 1..nk : /\ E.p[j] = B01(H!Has(E.o, j - 1))
                                 /\ E.p[j] = 1 => E.v[j] = map[E.o][j - 1]
Get == /\ Op("get") /\ UNCHANGED <<nk, map>>
       /\ E.p = B01(H!Has(E.o, E.k))
       /\ E.p = 1 => E.v = map[E.o][E.k]
TraceInit == TraceStart /\ H!HInit
TraceNext == (Mutate /\ Sizes) \/ Get \/ (Finished /\ UNCHANGED <<nk, map>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, nk, map>>
=============================================================================
