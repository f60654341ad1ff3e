---------------------------- MODULE BijHashTrace ---------------------------
(* C11: a hash of width w under observation is a permutation f of 0..2^w-1 *)
(* and ihash its inverse. What has been seen of f is accumulated in the    *)
(* state, so that observations have to agree with each other.              *)
EXTENDS TraceBase, U64
VARIABLE f          \* set of pairs <<x, f(x)>> seen so far
InRange(x, w) == BitLen(x) <= w
\* the whole of a small domain: both tables are permutations, one the inverse of the other
Table == /\ Op("table") /\ UNCHANGED f
         /\ LET n == Len(E.h) IN
            /\ n = Pow2[E.w] /\ Len(E.ih) = n
            /\ \A k \in 1..n : E.h[k] \in 0..(n-1) /\ E.ih[k] \in 0..(n-1)
            /\ \A k \in 1..n : E.ih[E.h[k] + 1] = k - 1
            /\ \A k \in 1..n : E.h[E.ih[k] + 1] = k - 1
Pts == /\ Op("pts")
       /\ \A k \in 1..Len(E.x) :
            /\ InRange(E.x[k], E.w)
            /\ InRange(E.h[k], E.w) /\ E.ihh[k] = E.x[k]
            /\ InRange(E.ih[k], E.w) /\ E.hih[k] = E.x[k]
       /\ f' = f \cup {<<E.x[k], E.h[k]>> : k \in 1..Len(E.x)} \cup {<<E.ih[k], E.x[k]>> : k \in 1..Len(E.x)}
       \* a partial injective function
       /\ Cardinality({p[1] : p \in f'}) = Cardinality(f') /\ Cardinality({p[2] : p \in f'}) = Cardinality(f')
TraceInit == TraceStart /\ f = {}
TraceNext == Table \/ Pts \/ (Finished /\ UNCHANGED f)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, f>>
=============================================================================
