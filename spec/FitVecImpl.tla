----------------------------- MODULE FitVecImpl -----------------------------
(* C06, the shape of the implementation: elements of b bits packed without *)
(* gaps into words of W bits, read and written with shifts and masks, also *)
(* across a word border. Words and values are sets of bit numbers.         *)
(* Refines FitVec for one object.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, N, AllValues
VARIABLES b, words, size, last
vars == <<b, words, size, last>>
View == <<b, words, size>>
Full == 0..W-1
Mask == 0..b-1
Values == IF AllValues THEN SUBSET Mask ELSE {{}, Mask, {b - 1}}
Shl(x, k) == {c + k : c \in x} \cap Full
Shr(x, k) == {c - k : c \in {d \in x : d >= k}}
Not(x) == Full \ x
Abs(i) == (i * b) \div W
Rel(i) == (i * b) % W
WordsFor(n) == IF n = 0 THEN 0 ELSE (n * b - 1) \div W + 1
\* reference read and write
Read(ws, i) == LET s == Abs(i) + 1  o == Rel(i) IN
    IF b + o <= W THEN Shr(ws[s], o) \cap Mask ELSE (Shr(ws[s], o) \cup Shl(ws[s + 1], W - o)) \cap Mask
Write(ws, i, x) == LET s == Abs(i) + 1  o == Rel(i)
                       w1 == [ws EXCEPT ![s] = (@ \cap Not(Shl(Mask, o))) \cup Shl(x, o)]
                   IN IF b + o > W THEN [w1 EXCEPT ![s + 1] = (@ \cap Not(Shr(Mask, W - o))) \cup Shr(x, W - o)] ELSE w1
RECURSIVE WriteAll(_, _, _, _)
WriteAll(ws, from, to, x) == IF from >= to THEN ws ELSE WriteAll(Write(ws, from, x), from + 1, to, x)
\* resize: storage truncated or extended with zero words, bits dropped at the end cleared
Resized(n) == LET r == [k \in 1..WordsFor(n) |-> IF k <= Len(words) THEN words[k] ELSE {}]
              IN IF n < size /\ Rel(n) # 0 THEN [r EXCEPT ![Len(r)] = @ \cap (0..(Rel(n) - 1))] ELSE r
Init == b \in 1..W /\ words = << >> /\ size = 0 /\ last = <<"init">>
New(n)        == words' = [k \in 1..WordsFor(n) |-> {}] /\ size' = n /\ UNCHANGED b
ResizeZ(n)    == words' = Resized(n) /\ size' = n /\ UNCHANGED b
ResizeV(n, x) == words' = WriteAll(Resized(n), size, n, x) /\ size' = n /\ UNCHANGED b
Assign(n, x)  == words' = WriteAll(Resized(n), 0, n, x) /\ size' = n /\ UNCHANGED b
Push(x)       == words' = Write(Resized(size + 1), size, x) /\ size' = size + 1 /\ UNCHANGED b
Set(i, x)     == words' = Write(words, i, x) /\ UNCHANGED <<b, size>>
Num == [x \in SUBSET Full |-> LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + (IF k - 1 \in x THEN 2^(k - 1) ELSE 0) IN S(W)]
Lab(l) == last' = l
Next == \/ \E n \in 0..N : ResizeZ(n) /\ Lab(<<"res", n>>)
        \/ \E n \in 0..N : New(n) /\ Lab(<<"new", n>>)
        \/ \E n \in 0..N, x \in Values : ResizeV(n, x) /\ Lab(<<"resv", n, Num[x]>>)
        \/ \E n \in 0..N, x \in Values : Assign(n, x) /\ Lab(<<"asn", n, Num[x]>>)
        \/ \E x \in Values : size < N /\ Push(x) /\ Lab(<<"push", Num[x]>>)
        \/ \E i \in 0..(size - 1), x \in Values : Set(i, x) /\ Lab(<<"set", i, Num[x]>>)
Spec == Init /\ [][Next]_vars
Word(n) == IF n = 0 THEN << >> ELSE <<n>>
Content == [k \in 1..size |-> Word(Num[Read(words, k - 1)])]
Objv == [o \in {0} |-> Content]
Objw == [o \in {0} |-> b]
A == INSTANCE FitVec WITH Objs <- {0}, v <- Objv, w <- Objw
Refines == [][ CASE last'[1] = "res"  -> A!Resize(0, last'[2], A!Zero)
                 [] last'[1] = "new"  -> A!New(0, b, last'[2])
                 [] last'[1] = "resv" -> A!Resize(0, last'[2], Word(last'[3]))
                 [] last'[1] = "asn"  -> A!Assign(0, last'[2], Word(last'[3]))
                 [] last'[1] = "push" -> A!Push(0, Word(last'[2]))
                 [] last'[1] = "set"  -> A!Set(0, last'[2], Word(last'[3])) ]_vars
TypeOK == Len(words) = WordsFor(size) /\ A!TypeOK
\* no access touches a word beyond the storage
InBounds == \A i \in 0..(size - 1) : Abs(i) < Len(words) /\ (b + Rel(i) > W => Abs(i) + 1 < Len(words))
Emit == PrintT("@@" \o ToJson(<<ToString(View), <<b>> \o last', ToString(View')>>))
=============================================================================
