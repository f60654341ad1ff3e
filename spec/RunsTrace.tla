----------------------------- MODULE RunsTrace -----------------------------
(* Histories of large structures (C01..C10, C14, C20). The state is two    *)
(* sequences in runs; observations are runs as well. P[1] says how the     *)
(* size is observed: "seq" the length, "map" the number of positions that  *)
(* are not absent (the sequence is indexed by the keys).                   *)
EXTENDS TraceBase, RunSeq
VARIABLE st
SizeOf(s) == IF P[1] = "map" THEN Sub(Length(s), Count(s, Length(s), "-")) ELSE Length(s)
Put(o, s) == st' = [st EXCEPT ![o] = s]
Seen == E.n0 = SizeOf(st'[0]) /\ E.n1 = SizeOf(st'[1])

Mutate == \/ Op("new")  /\ Put(E.o, Rep(E.n, E.v))
          \/ Op("res")  /\ Put(E.o, Resize(st[E.o], E.n, E.v))
          \/ Op("fill") /\ Le(E.y, Length(st[E.o])) /\ Put(E.o, Fill(st[E.o], E.x, E.y, E.v))
          \/ Op("push") /\ Put(E.o, Push(st[E.o], E.c, E.v))
          \/ Op("pop")  /\ Le(E.c, Length(st[E.o])) /\ Put(E.o, Pop(st[E.o], E.c))
          \/ Op("cpy")  /\ Put(E.o, st[E.p])
          \/ Op("same") /\ UNCHANGED st          \* building a directory, reserving, writing and reading back
\* elements a .. b-1, as runs
See == Op("see") /\ UNCHANGED st /\ E.runs = Window(st[E.o], E.a, E.b)
\* how many of the first q[k] elements are v
Rank == /\ Op("rank") /\ UNCHANGED st /\ Len(E.q) = Len(E.r)
        /\ \A k \in 1..Len(E.q) : E.r[k] = Count(st[E.o], E.q[k], E.v)
\* how many of the elements before q[k] are the element at q[k]
Own == /\ Op("own") /\ UNCHANGED st /\ Len(E.q) = Len(E.r)
       /\ \A k \in 1..Len(E.q) : E.r[k] = Count(st[E.o], E.q[k], At(st[E.o], E.q[k]))
\* the position of the (k+1)-th element v
Sel == /\ Op("sel") /\ UNCHANGED st /\ Len(E.k) = Len(E.r)
       /\ \A j \in 1..Len(E.k) : LET x == E.r[j] IN
             /\ Lt(x, Length(st[E.o])) /\ At(st[E.o], x) = E.v /\ Count(st[E.o], x, E.v) = E.k[j]
TraceInit == TraceStart /\ st = [o \in {0, 1} |-> << >>]
TraceNext == (Mutate /\ Seen) \/ See \/ Rank \/ Own \/ Sel \/ (Finished /\ UNCHANGED st)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, st>>
=============================================================================
