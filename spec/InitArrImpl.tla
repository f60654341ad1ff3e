---------------------------- MODULE InitArrImpl -----------------------------
(* C14, the shape of the in-place array: blocks of two cells, the first b  *)
(* blocks are the unwritten chained area. A block is chained to another    *)
(* one when the first cells name each other across the border. Cells of    *)
(* the memory before construction hold anything: every content is tried.   *)
(* The same sizes exist in the code. Refines InitArr.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Size,   \* of the array
          Cells,  \* values a cell can hold
          Inits   \* values it is initialised with
VARIABLES a, b, iv, last
vars == <<a, b, iv, last>>
View == <<a, b, iv>>
AS == Size + (Size % 2)
None == AS \div 2
Chained(m, bp, k) == LET p == m[2 * k] IN
    IF p < AS /\ p % 2 = 0 /\ m[p] = 2 * k /\ ((k < bp /\ bp <= p \div 2) \/ (p \div 2 < bp /\ bp <= k)) THEN p \div 2 ELSE None
Get(m, bp, v, j) == LET k == Chained(m, bp, j \div 2) IN
    IF j < 2 * bp THEN (IF k # None THEN v ELSE m[j])
    ELSE IF k = None THEN v ELSE IF j % 2 = 0 THEN m[m[j] + 1] ELSE m[j]
Link(m, p, q)   == [m EXCEPT ![2 * p] = 2 * q, ![2 * q] = 2 * p]
Break(m, bp, k) == LET p == Chained(m, bp, k) IN IF p = None THEN m ELSE [m EXCEPT ![2 * p] = 2 * p]
Blank(m, k, v)  == [m EXCEPT ![2 * k] = v, ![2 * k + 1] = v]
\* the area grows by a block; gives the memory and a block free for writing
Extend(m, bp, v) == LET k == Chained(m, bp, bp)
                        f == IF k = None THEN bp ELSE k
                        m1 == IF k = None THEN m ELSE Break([m EXCEPT ![2 * bp] = m[2 * k + 1]], bp + 1, bp)
                    IN <<Break(Blank(m1, f, v), bp + 1, f), f>>
Plain(m, bp, j, x) == Break([m EXCEPT ![j] = x], bp, j \div 2)
After(m, bp, v, j, x) ==        \* <<memory, b>> after set(j, x)
    LET q == j \div 2  k == Chained(m, bp, q) IN
    IF q < bp THEN
        IF k = None THEN <<Plain(m, bp, j, x), bp>>
        ELSE LET e == Extend(m, bp, v)  f == e[2]  n == bp + 1 IN
             IF f = q THEN <<Plain(e[1], n, j, x), n>>
             ELSE LET m1 == [e[1] EXCEPT ![2 * f] = e[1][2 * q], ![2 * f + 1] = e[1][2 * q + 1]]
                      m2 == Blank(Link(m1, f, k), q, v)
                  IN <<Plain(m2, n, j, x), n>>
    ELSE IF k # None THEN <<(IF j % 2 = 0 THEN [m EXCEPT ![2 * k + 1] = x] ELSE [m EXCEPT ![j] = x]), bp>>
    ELSE LET e == Extend(m, bp, v)  f == e[2]  n == bp + 1 IN
         IF f = q THEN <<Plain(e[1], n, j, x), n>>
         ELSE LET m2 == Link(Blank(e[1], q, v), f, q) IN
              <<(IF j % 2 = 0 THEN [m2 EXCEPT ![2 * f + 1] = x] ELSE [m2 EXCEPT ![j] = x]), n>>
Init == a \in [0..(AS - 1) -> Cells] /\ b = 0 /\ iv \in Inits /\ last = <<"new">>
Next == \/ \E j \in 0..(Size - 1), x \in Cells : LET r == After(a, b, iv, j, x) IN a' = r[1] /\ b' = r[2] /\ UNCHANGED iv /\ last' = <<"set", j, x>>
        \/ \E v \in Inits : b' = 0 /\ iv' = v /\ UNCHANGED a /\ last' = <<"init", v>>
Spec == Init /\ [][Next]_vars
TypeOK == b \in 0..None
A == INSTANCE InitArr WITH arr <- [k \in 1..Size |-> Get(a, b, iv, k - 1)]
Refines == [][ CASE last'[1] = "set" -> A!Set(last'[2], last'[3])
                 [] last'[1] = "init" -> A!InitAll(Size, last'[2]) ]_vars
FreshOK == b = 0 => \A j \in 0..(Size - 1) : Get(a, b, iv, j) = iv
Emit == PrintT("@@" \o ToJson(<<<<b, iv>> \o [k \in 1..AS |-> a[k - 1]], last', <<b', iv'>> \o [k \in 1..AS |-> a'[k - 1]]>>))
=============================================================================
