----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications. A trace file has one recorded  *)
(* history per line: [id, p (parameters), ev (sequence of events)].  TLC   *)
(* chooses a history in the initial state and then has to explain every    *)
(* event by an action of the component's specification; a history that     *)
(* cannot be explained to its end is a deadlock, at event i+1 of history h.*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES h, i        \* history being followed, number of events explained

Hist == ndJsonDeserialize(IOEnv.TRACE)

Evs  == Hist[h].ev
E    == Evs[i + 1]
P    == Hist[h].p
More == i < Len(Evs)
Op(name) == /\ More
            /\ E.op = name
            /\ i' = i + 1
            /\ h' = h

TraceStart == h \in 1..Len(Hist) /\ i = 0
Finished   == ~More /\ UNCHANGED <<h, i>>
=============================================================================
