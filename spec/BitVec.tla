------------------------------ MODULE BitVec -------------------------------
(* C01: the bit vector as an abstract sequence of bits.                    *)
(* Two objects, so that copies, moves and cross writes can be expressed.   *)
EXTENDS Naturals, Integers, Sequences

CONSTANT Objs
VARIABLE bv                     \* [Objs -> Seq({0,1})]

Rep(n, b)   == [k \in 1..n |-> b]
Resized(s, n, b) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE b]
Filled(s, x, y, b) == [k \in 1..Len(s) |-> IF x < k /\ k <= y THEN b ELSE s[k]]

BVInit == bv = [o \in Objs |-> << >>]

Put(o, s) == bv' = [bv EXCEPT ![o] = s]

New(o, n, b)        == Put(o, Rep(n, b))
NewFrom(o, s)       == Put(o, s)
Copy(o, p)          == Put(o, bv[p])
Move(o, p)          == bv' = [x \in Objs |-> IF x = o THEN bv[p] ELSE IF x = p THEN << >> ELSE bv[x]]
Swap(o, p)          == bv' = [bv EXCEPT ![o] = bv[p], ![p] = bv[o]]
Resize(o, n, b)     == Put(o, Resized(bv[o], n, b))
PushBack(o, b)      == Put(o, Append(bv[o], b))
Assign(o, n, b)     == Put(o, Rep(n, b))
\* range [x, y); an empty or reversed range fills nothing
Fill(o, x, y, b)    == x <= Len(bv[o]) /\ y <= Len(bv[o]) /\ Put(o, Filled(bv[o], x, y, b))
\* write through a reference or a dereferenced iterator
Set(o, x, b)        == x < Len(bv[o]) /\ Put(o, [bv[o] EXCEPT ![x + 1] = b])
\* assignment from another reference
SetFrom(o, x, p, y) == y < Len(bv[p]) /\ Set(o, x, bv[p][y + 1])
Reserve(o)          == UNCHANGED bv

TypeOK == \A o \in Objs : \A k \in 1..Len(bv[o]) : bv[o][k] \in {0, 1}

\* what an access reports
AtResult(o, x) == IF x < Len(bv[o]) THEN bv[o][x + 1] ELSE "out_of_range"
=============================================================================
