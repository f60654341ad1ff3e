-------------------------- MODULE RewritableTrace --------------------------
EXTENDS TraceBase
VARIABLE arr
R == INSTANCE Rewritable WITH Objs <- {0, 1}
B01(b) == IF b THEN 1 ELSE 0
IsVector == P[1] = "1"
Sizes == /\ E.n0 = Len(arr'[0]) /\ E.n1 = Len(arr'[1])
         /\ IsVector => /\ E.e0 = B01(arr'[0] = << >>) /\ E.e1 = B01(arr'[1] = << >>)
                        /\ E.c0 >= E.n0 /\ E.c1 >= E.n1
Mutate == \/ Op("new")  /\ R!New(E.o, E.n)
          \/ Op("list") /\ R!List(E.o, E.l)
          \/ Op("set")  /\ R!Set(E.o, E.i, E.x)
          \/ Op("cpy")  /\ R!Copy(E.o, E.p)
          \/ Op("push") /\ R!Push(E.o, E.l)
          \/ Op("pop")  /\ R!Pop(E.o, E.n)
          \/ Op("res")  /\ R!Resize(E.o, E.n)
          \/ Op("rsv")  /\ R!Keep(E.o) /\ (IF E.o = 0 THEN E.c0 ELSE E.c1) >= E.n
          \/ Op("shr")  /\ R!Keep(E.o)
          \/ Op("clr")  /\ R!Clear(E.o)
          \/ Op("all")  /\ R!Keep(E.o) /\ E.a = arr[E.o]       \* every element read
Get == /\ Op("get") /\ UNCHANGED arr /\ E.i < Len(arr[E.o]) /\ E.x = arr[E.o][E.i + 1]
TraceInit == TraceStart /\ R!RInit
TraceNext == (Mutate /\ Sizes) \/ Get \/ (Finished /\ UNCHANGED arr)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, arr>>
=============================================================================
