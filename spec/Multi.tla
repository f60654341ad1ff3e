------------------------------- MODULE Multi -------------------------------
(* C08: records of byte fields. A value is the sequence of its bytes, least *)
(* significant first; a field of n bytes keeps the first n.                *)
EXTENDS Naturals, Integers, Sequences
CONSTANT K       \* bytes of the largest field: 8
VARIABLES fs,     \* field sizes
          recs    \* sequence of records; a record is a sequence of K-byte values, one per field
Zero8 == [k \in 1..K |-> 0]
Cut(x, n) == [k \in 1..K |-> IF k <= n THEN x[k] ELSE 0]
ZeroRec == [f \in 1..Len(fs) |-> Zero8]
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE s[1] + Sum(Tail(s))

MInit == fs = << >> /\ recs = << >>
Layout(s) == fs' = s /\ recs' = << >>
\* the first Len(l) fields take the values, the others keep theirs
Assigned(r, l) == [f \in 1..Len(r) |-> IF f <= Len(l) THEN Cut(l[f], fs[f]) ELSE r[f]]
Push(l)        == Len(l) <= Len(fs) /\ recs' = Append(recs, Assigned(ZeroRec, l)) /\ UNCHANGED fs
Resize(n, l)   == /\ Len(l) <= Len(fs) /\ UNCHANGED fs
                  /\ recs' = [k \in 1..n |-> IF k <= Len(recs) THEN recs[k] ELSE Assigned(ZeroRec, l)]
SetField(k, f, x) == /\ k < Len(recs) /\ f < Len(fs) /\ UNCHANGED fs
                     /\ recs' = [recs EXCEPT ![k + 1] = [@ EXCEPT ![f + 1] = Cut(x, fs[f + 1])]]
\* restricted to a type of t bytes: only the first min(t, field size) bytes change
SetRestricted(k, f, x, t) ==
    /\ k < Len(recs) /\ f < Len(fs) /\ UNCHANGED fs
    /\ LET m == IF t < fs[f + 1] THEN t ELSE fs[f + 1]
       IN recs' = [recs EXCEPT ![k + 1] = [@ EXCEPT ![f + 1] = [j \in 1..K |-> IF j <= m THEN x[j] ELSE @[j]]]]
AssignRec(k, l) == k < Len(recs) /\ UNCHANGED fs /\ recs' = [recs EXCEPT ![k + 1] = Assigned(@, l)]
GetRestricted(k, f, t) == Cut(recs[k + 1][f + 1], t)
=============================================================================
