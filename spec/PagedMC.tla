------------------------------- MODULE PagedMC -----------------------------
(* Paged sequences against plain ones; the factor oracle in pages against  *)
(* the plain one, for every text.                                          *)
EXTENDS Paged, FiniteSets, TLC
CONSTANTS N, Vals, Chars, MaxText
VARIABLES p, s, t
vars == <<p, s, t>>
Plain == INSTANCE Oracle
Pg == INSTANCE OraclePaged
Init == p = << >> /\ s = << >> /\ t \in UNION {[1..n -> Chars] : n \in 0..MaxText}
Next == t = << >> /\ UNCHANGED t /\
    \/ \E v \in Vals : Len(s) < N /\ s' = Append(s, v) /\ p' = Add(p, Len(s), v)
    \/ \E k \in 1..Len(s), v \in Vals : s' = [s EXCEPT ![k] = v] /\ p' = Put(p, k - 1, v)
    \/ \E n \in 0..N, v \in Vals : s' = [k \in 1..n |-> v] /\ p' = Const(n, v)
Spec == Init /\ [][Next]_vars
Same == Size(p) = Len(s) /\ \A k \in 1..Len(s) : Get(p, k - 1) = s[k]
OracleSame == s = << >> =>
    LET a == Plain!OracleOf(t) b == Pg!OracleOf(t)
    IN /\ Size(b) = Len(a) /\ \A k \in 1..Len(a) : Get(b, k - 1) = a[k]
       /\ \A q \in UNION {[1..n -> Chars] : n \in 0..3} : Plain!Reads(a, q) = Pg!Reads(b, q)
=============================================================================
