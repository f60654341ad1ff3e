--------------------------- MODULE RewritableImpl ---------------------------
(* C10, the shape of the implementation: the width of every element, and   *)
(* per width a map from positions to values (a compact hash table, C09).   *)
(* The vector reallocates by copying into a new array; between its size    *)
(* and its capacity the array keeps old elements. Refines Rewritable.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W,     \* bits of a value
          N      \* greatest size asked for
VARIABLES size, cap, wid, tab, last
vars == <<size, cap, wid, tab, last>>
View == <<size, cap, wid, tab>>
P2(e) == 2^e
Values == 0..(P2(W) - 1)
Width(x) == IF x = 0 THEN 0 ELSE CHOOSE w \in 1..W : P2(w - 1) <= x /\ x < P2(w)
Max(a, b) == IF a > b THEN a ELSE b
NoEntries == [w \in 1..W |-> [k \in {} |-> 0]]
Arr(n) == [wid |-> [k \in 1..n |-> 0], tab |-> NoEntries]
Cur == [wid |-> wid, tab |-> tab]
Get(A, j) == IF A.wid[j + 1] = 0 THEN 0 ELSE A.tab[A.wid[j + 1]][j]     \* an absent entry is an error
Put(A, j, x) ==
    LET w == Width(x)  p == A.wid[j + 1]
        t1 == IF p # 0 /\ p # w THEN [A.tab EXCEPT ![p] = [k \in (DOMAIN @) \ {j} |-> @[k]]] ELSE A.tab
        t2 == IF w > 0 THEN [t1 EXCEPT ![w] = [k \in (DOMAIN @) \cup {j} |-> IF k = j THEN x ELSE @[k]]] ELSE t1
    IN [wid |-> [A.wid EXCEPT ![j + 1] = w], tab |-> t2]
RECURSIVE CopyTo(_, _, _, _), ZeroTo(_, _, _)
CopyTo(A, B, j, n) == IF j = n THEN B ELSE CopyTo(A, Put(B, j, Get(A, j)), j + 1, n)
ZeroTo(A, j, n) == IF j >= n THEN A ELSE ZeroTo(Put(A, j, 0), j + 1, n)
Alloc(n) == CopyTo(Cur, Arr(n), 0, size)
To(s, c, A) == size' = s /\ cap' = c /\ wid' = A.wid /\ tab' = A.tab
Init == size = 0 /\ cap = 0 /\ wid = << >> /\ tab = NoEntries /\ last = <<"new">>
New(n)    == To(n, n, Arr(n))
Set(j, x) == To(size, cap, Put(Cur, j, x))
Push(x)   == LET c == IF size = cap THEN Max(2 * size, 1) ELSE cap
                 A == IF size = cap THEN Alloc(c) ELSE Cur
             IN To(size + 1, c, Put(A, size, x))
Pop       == IF size = 0 THEN To(size, cap, Cur)
             ELSE IF 3 * size < cap THEN To(size - 1, 2 * size, Alloc(2 * size)) ELSE To(size - 1, cap, Cur)
Resize(n) == IF n > cap THEN LET c == Max(n, 2 * cap) IN To(n, c, Alloc(c)) ELSE To(n, cap, ZeroTo(Cur, size, n))
Reserve(n) == IF n <= cap THEN To(size, cap, Cur) ELSE LET c == Max(n, 2 * cap) IN To(size, c, Alloc(c))
Shrink    == IF size = cap THEN To(size, cap, Cur) ELSE To(size, size, Alloc(size))
Clear     == To(0, cap, Cur)
Next == \/ \E n \in 0..N : New(n) /\ last' = <<"new", n>>
        \/ \E j \in 0..(size - 1), x \in Values : Set(j, x) /\ last' = <<"set", j, x>>
        \/ \E x \in Values : size < N /\ Push(x) /\ last' = <<"push", x>>
        \/ Pop /\ last' = <<"pop">>
        \/ \E n \in 0..N : Resize(n) /\ last' = <<"res", n>>
        \/ \E n \in 0..N : Reserve(n) /\ last' = <<"rsv", n>>
        \/ Shrink /\ last' = <<"shr">>
        \/ Clear /\ last' = <<"clr">>
Spec == Init /\ [][Next]_vars
Bound == cap <= 2 * N
V(x) == IF x = 0 THEN << >> ELSE <<x>>
Content == [o \in {0} |-> [k \in 1..size |-> V(Get(Cur, k - 1))]]
A == INSTANCE Rewritable WITH Objs <- {0}, arr <- Content
Refines == [][ CASE last'[1] = "new"  -> A!New(0, last'[2])
                 [] last'[1] = "set"  -> A!Set(0, last'[2], V(last'[3]))
                 [] last'[1] = "push" -> A!Push(0, <<V(last'[2])>>)
                 [] last'[1] = "pop"  -> A!Pop(0, 1)
                 [] last'[1] = "res"  -> A!Resize(0, last'[2])
                 [] last'[1] \in {"rsv", "shr"} -> A!Keep(0)
                 [] last'[1] = "clr"  -> A!Clear(0) ]_vars
\* a table holds exactly the positions of its width, so that no table grows with elements that are gone
TablesOK == /\ Len(wid) = cap /\ size <= cap
            /\ \A w \in 1..W : DOMAIN tab[w] = {k - 1 : k \in {m \in 1..cap : wid[m] = w}}
Emit == PrintT("@@" \o ToJson(<<ToString(View), last', ToString(View')>>))
=============================================================================
