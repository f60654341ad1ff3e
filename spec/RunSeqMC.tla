------------------------------ MODULE RunSeqMC -----------------------------
(* The operations on runs are the operations on plain sequences.           *)
EXTENDS RunSeq, FiniteSets
CONSTANTS N, Vals
VARIABLES s, p                     \* runs, plain
vars == <<s, p>>
B(n) == <<n \div Base, n % Base>>
I(b) == b[1] * Base + b[2]
Expand(r) == [k \in 1..I(Length(r)) |-> At(r, B(k - 1))]
Init == s = << >> /\ p = << >>
Next ==
    \/ \E n \in 0..N, v \in Vals : s' = Rep(B(n), v) /\ p' = [k \in 1..n |-> v]
    \/ \E n \in 0..N, v \in Vals : s' = Resize(s, B(n), v) /\ p' = [k \in 1..n |-> IF k <= Len(p) THEN p[k] ELSE v]
    \/ \E x \in 0..Len(p), y \in 0..Len(p), v \in Vals : s' = Fill(s, B(x), B(y), v) /\ p' = [k \in 1..Len(p) |-> IF x < k /\ k <= y THEN v ELSE p[k]]
    \/ \E c \in 0..(N - Len(p)), v \in Vals : s' = Push(s, B(c), v) /\ p' = p \o [k \in 1..c |-> v]
    \/ \E c \in 0..Len(p) : s' = Pop(s, B(c)) /\ p' = SubSeq(p, 1, Len(p) - c)
Spec == Init /\ [][Next]_vars
Same == I(Length(s)) = Len(p) /\ Expand(s) = p
Canonical == /\ \A k \in 1..Len(s) : Lt(StartOf(s, k), s[k][1]) /\ s[k][1][2] \in 0..(Base - 1)
             /\ \A k \in 2..Len(s) : s[k - 1][2] # s[k][2]
Counts == \A x \in 0..Len(p), v \in Vals : I(Count(s, B(x), v)) = Cardinality({k \in 1..x : p[k] = v})
Windows == \A a \in 0..Len(p), b \in 0..Len(p) : a <= b =>
              LET w == Window(s, B(a), B(b))
              IN  /\ \A k \in (a + 1)..b : At(w, B(k - 1)) = p[k]
                  /\ a < b => Length(w) = B(b)
                  /\ a = b => w = << >>
                  /\ \A k \in 1..Len(w) : Lt(B(a), w[k][1]) /\ (k > 1 => w[k - 1][2] # w[k][2])
=============================================================================
