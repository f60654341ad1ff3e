-------------------------------- MODULE Heap -------------------------------
(* C12: a heap as the bag of what it holds. Values are numbers 0..m-1 (the *)
(* ranks of the actual values), asc tells a minimum from a maximum heap.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES bag, asc
HInit == bag = << >> /\ asc = TRUE
None(m)  == TLCEval([x \in 0..(m-1) |-> 0])
Add(b, x) == [b EXCEPT ![x] = @ + 1]
BagOf(m, l) == FoldLeft(LAMBDA b, x : Add(b, x), None(m), l)
Held(b) == {x \in DOMAIN b : b[x] > 0}
\* the extreme value held, -2 if there is none
Extreme(b, a) == IF Held(b) = {} THEN -2
               ELSE IF a THEN CHOOSE x \in Held(b) : \A y \in Held(b) : x <= y
                    ELSE CHOOSE x \in Held(b) : \A y \in Held(b) : x >= y
Count(b) == FoldLeft(LAMBDA n, x : n + b[x], 0, [k \in 1..Cardinality(DOMAIN b) |-> k - 1])
Domain(m, a) == bag' = None(m) /\ asc' = a
List(l) == bag' = BagOf(Cardinality(DOMAIN bag), l) /\ UNCHANGED asc
Push(x) == x \in DOMAIN bag /\ bag' = Add(bag, x) /\ UNCHANGED asc
Pop     == Held(bag) # {} /\ bag' = [bag EXCEPT ![Extreme(bag, asc)] = @ - 1] /\ UNCHANGED asc
\* stored values changed one after the other (old, new), then rebuilt
Replace(b, p) == [[b EXCEPT ![p[1]] = @ - 1] EXCEPT ![p[2]] = @ + 1]
Raw(ch) == /\ \A k \in 1..Len(ch) : ch[k][1] \in DOMAIN bag /\ ch[k][2] \in DOMAIN bag
           /\ bag' = FoldLeft(Replace, bag, ch) /\ UNCHANGED asc
           /\ \A x \in DOMAIN bag' : bag'[x] >= 0
\* everything taken out, one front after the other
Ordered(a) == \A k \in 1..(Len(a)-1) : IF asc THEN a[k] <= a[k+1] ELSE a[k] >= a[k+1]
\* (formulas as values, = TRUE: TLC takes a quantifier of an action apart recursively)
Inside(l) == \A k \in 1..Len(l) : l[k] \in DOMAIN bag
PushAll(l) == Inside(l) = TRUE /\ bag' = FoldLeft(Add, bag, l) /\ UNCHANGED asc
\* the fronts of several pops, one after the other: in order, held before, and nothing that stays comes before them
PopAll(a) == /\ (Inside(a) /\ Ordered(a)) = TRUE
             /\ LET out == BagOf(Cardinality(DOMAIN bag), a)
                IN /\ \A x \in DOMAIN bag : out[x] <= bag[x]
                   /\ bag' = [x \in DOMAIN bag |-> bag[x] - out[x]]
             /\ a # << >> => \A x \in Held(bag') : IF asc THEN a[Len(a)] <= x ELSE a[Len(a)] >= x
             /\ UNCHANGED asc
Drain(a) == /\ (Inside(a) /\ Ordered(a)) = TRUE /\ BagOf(Cardinality(DOMAIN bag), a) = bag
            /\ bag' = None(Cardinality(DOMAIN bag)) /\ UNCHANGED asc
=============================================================================
