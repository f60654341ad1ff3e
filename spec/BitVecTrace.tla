--------------------------- MODULE BitVecTrace -----------------------------
EXTENDS TraceBase
VARIABLE bv
B == INSTANCE BitVec WITH Objs <- {0, 1}

\* the whole visible state, recorded after every operation: length and emptiness and the bits
\* of both objects, each read through one of the ways of reading
Seen == /\ Len(bv'[0]) = E.n0 /\ bv'[0] = E.s0 /\ E.e0 = (IF bv'[0] = << >> THEN 1 ELSE 0)
        /\ Len(bv'[1]) = E.n1 /\ bv'[1] = E.s1 /\ E.e1 = (IF bv'[1] = << >> THEN 1 ELSE 0)

Mutate == \/ Op("new")    /\ B!New(E.o, E.n, 0)
          \/ Op("newf")   /\ B!New(E.o, E.n, E.b)
          \/ Op("newv")   /\ B!NewFrom(E.o, E.bits)
          \/ Op("cpy")    /\ B!Copy(E.o, E.p)
          \/ Op("mov")    /\ B!Move(E.o, E.p)
          \/ Op("swap")   /\ B!Swap(E.o, E.p)
          \/ Op("res")    /\ B!Resize(E.o, E.n, 0)
          \/ Op("resb")   /\ B!Resize(E.o, E.n, E.b)
          \/ Op("push")   /\ B!PushBack(E.o, E.b)
          \/ Op("asn")    /\ B!Assign(E.o, E.n, E.b)
          \/ Op("fill")   /\ B!Fill(E.o, E.x, E.y, E.b)
          \/ Op("set")    /\ B!Set(E.o, E.x, E.b)
          \/ Op("setfrom") /\ B!SetFrom(E.o, E.x, E.p, E.y)
          \/ Op("rsv")    /\ B!Reserve(E.o)

\* queries leave the state alone
At == /\ Op("at") /\ UNCHANGED bv
      /\ E.r = ToString(B!AtResult(E.o, E.x))
\* iterator arithmetic: iterators to positions x and y of one object
IterPair == /\ Op("iters") /\ UNCHANGED bv
            /\ E.d = E.x - E.y
            /\ E.eq = (IF E.x = E.y THEN 1 ELSE 0)
            /\ E.ne = (IF E.x # E.y THEN 1 ELSE 0)
            /\ E.lt = (IF E.x < E.y THEN 1 ELSE 0)
            /\ E.le = (IF E.x <= E.y THEN 1 ELSE 0)
            /\ E.gt = (IF E.x > E.y THEN 1 ELSE 0)
            /\ E.ge = (IF E.x >= E.y THEN 1 ELSE 0)
\* from x move by d (in several ways), then read
IterMove == /\ Op("itermove") /\ UNCHANGED bv
            /\ E.x + E.d < Len(bv[E.o])
            /\ \A k \in 1..Len(E.r) : E.r[k] = bv[E.o][E.x + E.d + 1]
            /\ \A k \in 1..Len(E.at) : E.at[k] = E.x + E.d

TraceInit == TraceStart /\ B!BVInit
TraceNext == (Mutate /\ Seen) \/ At \/ IterPair \/ IterMove \/ (Finished /\ UNCHANGED bv)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, bv>>
=============================================================================
