------------------------------ MODULE FitVec -------------------------------
(* C06: two packed vectors of elements of a fixed width, as sequences.     *)
(* Values are 64-bit words in the notation of module U64; Zero is << >>.   *)
EXTENDS Naturals, Integers, Sequences, U64
CONSTANT Objs
VARIABLES v,     \* [Objs -> Seq(word)]
          w      \* [Objs -> width]
Zero == << >>
Rep(n, x)     == [k \in 1..n |-> x]
Resized(s, n, x) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE x]
Fits(x, n)    == BitLen(x) <= n
\* the smallest width for the largest value of a list; at least 1; 0 for the empty list
MinWidth(l)   == IF l = << >> THEN 0
                 ELSE LET m == BitLen(MaxOf({l[k] : k \in 1..Len(l)})) IN IF m = 0 THEN 1 ELSE m

FVInit == v = [o \in Objs |-> << >>] /\ w = [o \in Objs |-> 64]
Put(o, s)     == v' = [v EXCEPT ![o] = s] /\ UNCHANGED w
PutW(o, n, s) == v' = [v EXCEPT ![o] = s] /\ w' = [w EXCEPT ![o] = n]

New(o, wd, n)       == PutW(o, wd, Rep(n, Zero))
NewFilled(o, wd, n, x) == Fits(x, wd) /\ PutW(o, wd, Rep(n, x))
FromList(o, l)      == PutW(o, MinWidth(l), l)
Copy(o, p)          == PutW(o, w[p], v[p])
Move(o, p)          == /\ v' = [q \in Objs |-> IF q = o THEN v[p] ELSE IF q = p THEN << >> ELSE v[q]]
                       /\ w' = [q \in Objs |-> IF q = o THEN w[p] ELSE IF q = p THEN 3 ELSE w[q]]
Resize(o, n, x)     == Fits(x, w[o]) /\ Put(o, Resized(v[o], n, x))
Assign(o, n, x)     == Fits(x, w[o]) /\ Put(o, Rep(n, x))
Push(o, x)          == Fits(x, w[o]) /\ Put(o, Append(v[o], x))
Set(o, k, x)        == k < Len(v[o]) /\ Fits(x, w[o]) /\ Put(o, [v[o] EXCEPT ![k + 1] = x])
SetFrom(o, k, p, j) == j < Len(v[p]) /\ Set(o, k, v[p][j + 1])
Reserve(o)          == UNCHANGED <<v, w>>
TypeOK == \A o \in Objs : \A k \in 1..Len(v[o]) : Fits(v[o][k], w[o])
=============================================================================
