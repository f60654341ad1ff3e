----------------------------- MODULE MultiTrace ----------------------------
EXTENDS TraceBase
VARIABLES fs, recs
M == INSTANCE Multi WITH K <- 8
\* everything after every operation: number of records, layout, all fields of all records
Seen == /\ E.n = Len(recs') /\ E.s = recs' /\ E.f = fs' /\ E.bs = M!Sum(fs')
Mutate == \/ Op("layout") /\ M!Layout(E.fs)
          \/ Op("push")   /\ M!Push(E.l)
          \/ Op("res")    /\ M!Resize(E.to, << >>)
          \/ Op("resl")   /\ M!Resize(E.to, E.l)
          \/ Op("rsv")    /\ UNCHANGED <<fs, recs>>
          \/ Op("set")    /\ M!SetField(E.i, E.f_, E.x) /\ E.ret = E.x
          \/ Op("setr")   /\ M!SetRestricted(E.i, E.f_, E.x, E.t) /\ E.ret = M!Cut(E.x, E.t)
          \/ Op("asn")    /\ M!AssignRec(E.i, E.l)
Get == /\ Op("getr") /\ UNCHANGED <<fs, recs>>
       /\ E.x = M!GetRestricted(E.i, E.f_, E.t) /\ E.y = E.x
TraceInit == TraceStart /\ M!MInit
TraceNext == (Mutate /\ Seen) \/ Get \/ (Finished /\ UNCHANGED <<fs, recs>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, fs, recs>>
=============================================================================
