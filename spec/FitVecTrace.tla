--------------------------- MODULE FitVecTrace -----------------------------
EXTENDS TraceBase
VARIABLES v, w
F == INSTANCE FitVec WITH Objs <- {0, 1}
B01(b) == IF b THEN 1 ELSE 0
\* length, emptiness, width and every element of both objects after every operation
Seen == /\ Len(v'[0]) = E.n0 /\ v'[0] = E.s0 /\ w'[0] = E.w0 /\ E.e0 = B01(v'[0] = << >>)
        /\ Len(v'[1]) = E.n1 /\ v'[1] = E.s1 /\ w'[1] = E.w1 /\ E.e1 = B01(v'[1] = << >>)
Mutate == \/ Op("new")  /\ F!New(E.o, E.w, E.n)
          \/ Op("newv") /\ F!NewFilled(E.o, E.w, E.n, E.x)
          \/ Op("list") /\ F!FromList(E.o, E.l)
          \/ Op("cpy")  /\ F!Copy(E.o, E.p)
          \/ Op("mov")  /\ F!Move(E.o, E.p)
          \/ Op("res")  /\ F!Resize(E.o, E.n, F!Zero)
          \/ Op("resv") /\ F!Resize(E.o, E.n, E.x)
          \/ Op("asn")  /\ F!Assign(E.o, E.n, E.x)
          \/ Op("push") /\ F!Push(E.o, E.x)
          \/ Op("set")  /\ F!Set(E.o, E.i, E.x)
          \/ Op("setfrom") /\ F!SetFrom(E.o, E.i, E.p, E.j)
          \/ Op("rsv")  /\ F!Reserve(E.o)
At == /\ Op("at") /\ UNCHANGED <<v, w>>
      /\ IF E.i < Len(v[E.o]) THEN E.oor = 0 /\ E.x = v[E.o][E.i + 1] ELSE E.oor = 1
TraceInit == TraceStart /\ F!FVInit
TraceNext == (Mutate /\ Seen) \/ At \/ (Finished /\ UNCHANGED <<v, w>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, v, w>>
=============================================================================
