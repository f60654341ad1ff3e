---------------------------- MODULE MultiBitImpl ----------------------------
(* C04, the shape of the implementation: PW elements per word, KW words per *)
(* block, a count per block and narrow counts per word of a block for every *)
(* type above 0; a directory left behind by an earlier build stays in place *)
(* for types that no longer occur. Refines MultiBit; every rank a built     *)
(* structure can be asked for is checked against the definition.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PW, KW, Top, N, L2Max      \* greatest type, longest vector, width limit of the narrow counts
VARIABLES words,     \* Seq([0..PW-1 -> 0..Top])
          tips,      \* per type: Seq([L1, L2])
          built, len, \* auxiliary: one past the greatest position written
          last
vars == <<words, tips, built, len, last>>
View == <<words, tips, built, len>>
Zero == [c \in 0..PW-1 |-> 0]
Abs(x) == x \div PW
Rel(x) == x % PW
Blk(x) == x \div (PW * KW)
Cnt(w, t, lim) == Cardinality({c \in 0..(lim - 1) : w[c] = t})
At(x) == words[Abs(x) + 1][Rel(x)]
Grown(ws, x) == IF Abs(x) < Len(ws) THEN ws ELSE [k \in 1..(Abs(x) + 1) |-> IF k <= Len(ws) THEN ws[k] ELSE Zero]
Init == words = << >> /\ tips = [t \in 1..Top |-> << >>] /\ built = FALSE /\ len = 0 /\ last = <<"init">>
Set(x, t) == /\ words' = [Grown(words, x) EXCEPT ![Abs(x) + 1] = [@ EXCEPT ![Rel(x)] = t]]
             /\ built' = FALSE /\ len' = (IF x + 1 > len THEN x + 1 ELSE len) /\ UNCHANGED tips
Grow(x) == /\ x + 1 >= len \* never below what was written
           /\ words' = Grown(words, x) /\ built' = FALSE /\ len' = x + 1 /\ UNCHANGED tips
Used == {At(x) : x \in 0..(Len(words) * PW - 1)}
NumTypes == IF words = << >> THEN 0 ELSE CHOOSE m \in {t + 1 : t \in Used} : \A t \in Used : t < m
RECURSIVE Count(_, _)
Count(t, k) == IF k = 0 THEN 0 ELSE Count(t, k - 1) + Cnt(words[k], t, PW)   \* in the first k words
Min(a, b) == IF a < b THEN a ELSE b
Tips(t) == LET nb == (Len(words) + KW - 1) \div KW IN
           [b \in 1..nb |-> LET l1 == Count(t, (b - 1) * KW) IN
                [L1 |-> l1, L2 |-> [o \in 0..KW-1 |-> (Count(t, Min((b - 1) * KW + o, Len(words))) - l1) % (L2Max + 1)]]]
Build == /\ tips' = IF words = << >> THEN tips ELSE [t \in 1..Top |-> IF t < NumTypes THEN Tips(t) ELSE tips[t]]
         /\ built' = TRUE /\ UNCHANGED <<words, len>>
RankI(x) == LET t == At(x)  tip == tips[t][Blk(x) + 1] IN
            tip.L1 + tip.L2[Abs(x) % KW] + (IF Rel(x) = 0 THEN 0 ELSE Cnt(words[Abs(x) + 1], t, Rel(x)))
Label(l) == last' = l
Next == \/ \E x \in 0..(N - 1), t \in 0..Top : Set(x, t) /\ Label(<<"set", x, t>>)
        \/ \E x \in 0..(N - 1) : Grow(x) /\ Label(<<"grow", x>>)
        \/ Build /\ ~built /\ Label(<<"build">>)
Spec == Init /\ [][Next]_vars
Content == [k \in 1..len |-> At(k - 1)]
A == INSTANCE MultiBit WITH seq <- Content, built <- built
Refines == [][ CASE last'[1] = "set" -> A!Set(last'[2], last'[3])
                 [] last'[1] = "grow" -> A!GrowTo(last'[2])
                 [] last'[1] = "build" -> A!Build ]_vars
TypeOK == len <= Len(words) * PW /\ \A x \in len..(Len(words) * PW - 1) : At(x) = 0
RankOK == built => \A x \in 0..(len - 1) : At(x) > 0 => RankI(x) = A!RankAt(Content, x)
CharOK == LET r == [k \in 1..len |-> IF Content[k] = 0 THEN -1 ELSE A!RankAt(Content, k - 1)] IN
          /\ A!IsRankTable(Content, r, {0})
          /\ \A k \in 1..len : ~A!IsRankTable(Content, [r EXCEPT ![k] = @ + 1], {0})
Emit == PrintT("@@" \o ToJson(<<ToString(View), last', ToString(View')>>))
=============================================================================
