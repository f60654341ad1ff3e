-------------------------------- MODULE Big --------------------------------
(* Natural numbers beyond TLC's integers as pairs <<hi, lo>> in base Base. *)
EXTENDS Naturals, Integers
CONSTANT Base
Zero == <<0, 0>>
One == <<0, 1>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)
Min(a, b) == IF Lt(a, b) THEN a ELSE b
Max(a, b) == IF Lt(a, b) THEN b ELSE a
Add(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + (l \div Base), l % Base>>
Sub(a, b) == LET l == a[2] - b[2] IN IF l < 0 THEN <<a[1] - b[1] - 1, l + Base>> ELSE <<a[1] - b[1], l>>   \* b <= a
=============================================================================
