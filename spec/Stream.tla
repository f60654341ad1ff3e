------------------------------- MODULE Stream ------------------------------
(* C20: objects and a stream. What an object answers to all its queries is *)
(* its value; writing appends the value to the stream, reading takes the   *)
(* oldest one off and makes it the value of an object, whatever that       *)
(* object held before.                                                     *)
EXTENDS Naturals, Integers, Sequences, TLC
VARIABLES val,    \* [slots in use -> [k: kind, v: value]]
          q       \* items written and not yet read, [k, v, n: length in bytes]
SInit == val = [o \in {} |-> 0] /\ q = << >>
Put(o, k, v) == val' = (o :> [k |-> k, v |-> v]) @@ val /\ UNCHANGED q
Drop(o)      == o \in DOMAIN val /\ val' = [x \in DOMAIN val \ {o} |-> val[x]] /\ UNCHANGED q
Write(o, n)  == /\ o \in DOMAIN val /\ q' = Append(q, [k |-> val[o].k, v |-> val[o].v, n |-> n])
                /\ UNCHANGED val
Read(o)      == /\ q # << >>
                /\ val' = (o :> [k |-> Head(q).k, v |-> Head(q).v]) @@ val
                /\ q' = Tail(q)
\* the same changes made to two equal objects keep them equal
Poke(o, p, v) == /\ o \in DOMAIN val /\ p \in DOMAIN val /\ val[o] = val[p]
                 /\ val' = [val EXCEPT ![o].v = v, ![p].v = v] /\ UNCHANGED q
=============================================================================
