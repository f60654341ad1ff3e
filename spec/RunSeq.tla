------------------------------- MODULE RunSeq ------------------------------
(* Sequences too long to be written out, as their maximal runs: a sequence *)
(* is << <<e1, v1>>, <<e2, v2>>, ... >> where run k fills the positions     *)
(* e(k-1) .. e(k)-1 with v(k); ends increase, neighbours differ. Such a     *)
(* form is unique, so equality of sequences is equality of forms.          *)
(* RunSeqMC shows that every operation is the one on plain sequences.      *)
EXTENDS Big, Sequences, SequencesExt

Length(s) == IF s = << >> THEN Zero ELSE s[Len(s)][1]
StartOf(s, k) == IF k = 1 THEN Zero ELSE s[k - 1][1]

\* the canonical form of runs with non-decreasing ends
Norm(s) == FoldLeft(LAMBDA a, r :
               IF Le(r[1], Length(a)) THEN a
               ELSE IF a # << >> /\ a[Len(a)][2] = r[2] THEN [a EXCEPT ![Len(a)] = r]
               ELSE Append(a, r), << >>, s)
Upto(s, x) == Norm([k \in 1..Len(s) |-> <<Min(s[k][1], x), s[k][2]>>])         \* the first x elements
\* runs that reach beyond y, to be put after runs ending at y
After(s, y) == SelectSeq(s, LAMBDA r : Lt(y, r[1]))

Rep(n, v) == IF n = Zero THEN << >> ELSE << <<n, v>> >>
Fill(s, x, y, v) == IF Le(y, x) THEN s ELSE Norm(Upto(s, x) \o << <<y, v>> >> \o After(s, y))
Resize(s, n, v) == IF Le(n, Length(s)) THEN Upto(s, n) ELSE Norm(Append(s, <<n, v>>))
Push(s, c, v) == Resize(s, Add(Length(s), c), v)
Pop(s, c) == Upto(s, Sub(Length(s), c))
RunAt(s, x) == CHOOSE k \in 1..Len(s) : Lt(x, s[k][1]) /\ Le(StartOf(s, k), x)
At(s, x) == s[RunAt(s, x)][2]
\* elements a .. b-1, with their ends
Window(s, a, b) == LET u == Upto(s, b) IN SelectSeq(u, LAMBDA r : Lt(a, r[1]))
\* how many of the first x elements are v
Count(s, x, v) == FoldLeft(LAMBDA a, k : IF s[k][2] = v THEN Add(a, Sub(Min(s[k][1], x), Min(StartOf(s, k), x))) ELSE a,
                           Zero, [k \in 1..Len(s) |-> k])
=============================================================================
