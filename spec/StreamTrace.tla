---------------------------- MODULE StreamTrace ----------------------------
EXTENDS TraceBase
VARIABLES val, q
S == INSTANCE Stream
Put   == Op("put") /\ S!Put(E.o, E.k, E.v)
Drop  == Op("drop") /\ S!Drop(E.o)
Write == Op("write") /\ E.ok = 1 /\ E.n >= 0 /\ S!Write(E.o, E.n)
Read  == /\ Op("read") /\ q # << >> /\ E.ok = 1
         /\ E.n = Head(q).n                  \* consumes exactly what was produced
         /\ E.k = Head(q).k /\ E.v = Head(q).v
         /\ S!Read(E.o)
View  == Op("view") /\ E.o \in DOMAIN val /\ E.v = val[E.o].v /\ UNCHANGED <<val, q>>
Poke  == Op("poke") /\ E.v = E.w /\ S!Poke(E.o, E.q, E.v)
TraceInit == TraceStart /\ S!SInit
TraceNext == Put \/ Drop \/ Write \/ Read \/ View \/ Poke \/ (Finished /\ UNCHANGED <<val, q>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, val, q>>
=============================================================================
