----------------------------- MODULE Rewritable ----------------------------
(* C10: two rewritable arrays / vectors as sequences of 64-bit words.      *)
EXTENDS Naturals, Integers, Sequences
CONSTANT Objs
VARIABLE arr
Zero == << >>
RInit == arr = [o \in Objs |-> << >>]
Put(o, s)  == arr' = [arr EXCEPT ![o] = s]
New(o, n)  == Put(o, [k \in 1..n |-> Zero])
List(o, l) == Put(o, l)
Set(o, k, x) == k < Len(arr[o]) /\ Put(o, [arr[o] EXCEPT ![k + 1] = x])
Copy(o, p) == Put(o, arr[p])
Push(o, l) == Put(o, arr[o] \o l)
Pop(o, n)  == Put(o, SubSeq(arr[o], 1, IF n > Len(arr[o]) THEN 0 ELSE Len(arr[o]) - n))
Resize(o, n) == Put(o, [k \in 1..n |-> IF k <= Len(arr[o]) THEN arr[o][k] ELSE Zero])
Keep(o)    == UNCHANGED arr
Clear(o)   == Put(o, << >>)
=============================================================================
