----------------------------- MODULE SuffixImpl ----------------------------
(* C19, the shape of the implementation: SA-IS with an explicit stack of   *)
(* recursion, then the common prefixes in text order. A frame holds the    *)
(* string (it ends in the only 0), its largest character, its types, its   *)
(* leftmost-S positions and the array; phases follow one another as the    *)
(* functions are called.                                                   *)
EXTENDS Suffix, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS Chars, MinLen, MaxLen
VARIABLES text, stack, ret, sa, lcp, i, prev, pc
vars == <<text, stack, ret, sa, lcp, i, prev, pc>>
Inf == -1
At(s, p) == s[p + 1]
Texts == UNION {[1..n -> Chars] : n \in MinLen..MaxLen}
Frame(s, mx) == [s |-> s, mx |-> mx, ph |-> "types", ty |-> <<>>, lms |-> <<>>, arr |-> <<>>, names |-> <<>>]
TopChar == Max(Chars)
Init == /\ text \in Texts /\ stack = IF text = <<>> THEN <<>> ELSE <<Frame(Append(text, 0), TopChar)>>
        /\ ret = <<>> /\ sa = <<>> /\ lcp = [j \in 1..Len(text) |-> 0] /\ i = 0 /\ prev = 0
        /\ pc = IF text = <<>> THEN "done" ELSE "sais"
\* ---- types: TRUE where the suffix is less than the one behind it
RECURSIVE TypesFrom(_, _, _)
TypesFrom(s, p, ty) == IF p = 0 THEN ty
    ELSE TypesFrom(s, p - 1, << IF At(s, p - 1) = At(s, p) THEN ty[1] ELSE At(s, p - 1) < At(s, p) >> \o ty)
Types(s) == TypesFrom(s, Len(s) - 1, <<TRUE>>)
Lms(ty) == SelectSeq([p \in 1..(Len(ty) - 1) |-> p], LAMBDA p : ~ty[p] /\ ty[p + 1])
\* ---- buckets: l is the next place for an L suffix from the front, s for an S suffix from the back
Count(s, c) == Cardinality({p \in 1..Len(s) : s[p] = c})
RECURSIVE Starts(_, _, _, _)
Starts(s, mx, c, acc) == IF c > mx THEN acc ELSE Starts(s, mx, c + 1, Append(acc, IF c = 0 THEN 0 ELSE acc[c] + Count(s, c - 1)))
Buckets(f) == LET st == Starts(f.s, f.mx, 0, <<>>) IN [c \in 0..f.mx |-> [l |-> st[c + 1], n |-> Count(f.s, c), s |-> st[c + 1] + Count(f.s, c) - 1, at |-> st[c + 1]]]
\* acc: <<array, buckets, positions the leftmost-S suffixes were put at>>
Put(acc, s, isS, p, mark) ==
    LET c == At(s, p)  b == acc[2][c]  pos == IF isS THEN b.s ELSE b.l IN
    IF Assert(b.n > 0 /\ b.s >= b.l, <<"bucket full", s, p>>)
    THEN << [acc[1] EXCEPT ![pos + 1] = p], IF isS THEN [acc[2] EXCEPT ![c].s = @ - 1] ELSE [acc[2] EXCEPT ![c].l = @ + 1],
            IF mark THEN acc[3] \union {pos} ELSE acc[3] >> ELSE acc
RECURSIVE InduceL(_, _, _), InduceS(_, _, _)
InduceL(f, acc, k) == IF k > Len(f.s) THEN acc
    ELSE LET id == acc[1][k] IN InduceL(f, IF id <= 0 \/ f.ty[id] THEN acc ELSE Put(acc, f.s, FALSE, id - 1, FALSE), k + 1)
InduceS(f, acc, k) == IF k = 0 THEN acc
    ELSE LET id == acc[1][k] IN InduceS(f, IF id <= 0 \/ ~f.ty[id] THEN acc ELSE Put(acc, f.s, TRUE, id - 1, FALSE), k - 1)
\* order: the leftmost-S positions as they are put in, from the last to the first
Induce(f, order) ==
    LET a0 == <<[k \in 1..Len(f.s) |-> Inf], Buckets(f), {}>>
        a1 == FoldLeft(LAMBDA acc, p : Put(acc, f.s, TRUE, p, TRUE), a0, Reverse(order))
        a2 == InduceL(f, a1, 1)
        a3 == << [k \in 1..Len(f.s) |-> IF k > 1 /\ (k - 1) \in a1[3] THEN Inf ELSE a2[1][k]],
                 [c \in 0..f.mx |-> [a2[2][c] EXCEPT !.s = a2[2][c].at + a2[2][c].n - 1]], {}>>
    IN InduceS(f, a3, Len(f.s))[1]
\* ---- names
IsLms(ty, p) == p > 0 /\ ty[p + 1] /\ ~ty[p]
RECURSIVE Same(_, _, _, _, _)
Same(f, a, b, cur, n) ==     \* as EqualLMSs_: until the next leftmost-S position of the left one has been compared
    IF At(f.s, a) # At(f.s, b) THEN FALSE
    ELSE LET leftL == ~cur  c == f.ty[a + 1] IN IF leftL /\ c THEN TRUE ELSE Same(f, a + 1, b + 1, c, n + 1)
Naming(f, arr) ==   \* <<last leftmost-S position, number, names by position>>
    FoldLeft(LAMBDA acc, p : IF ~IsLms(f.ty, p) THEN acc
                ELSE LET k == IF acc[1] > 0 /\ ~Same(f, acc[1], p, TRUE, 0) THEN acc[2] + 1 ELSE acc[2] IN <<p, k, (p :> k) @@ acc[3]>>,
             <<0, 0, [p \in {} |-> 0]>>, arr)
Top1 == stack[Len(stack)]
SetTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]
Rest == UNCHANGED <<text, sa, lcp, i, prev>>
Sais == pc = "sais" /\ stack # <<>>
TypesStep == /\ Sais /\ Top1.ph = "types" /\ LET ty == Types(Top1.s) IN SetTop([Top1 EXCEPT !.ty = ty, !.lms = Lms(ty), !.ph = "sort"])
             /\ UNCHANGED <<ret, pc>> /\ Rest
SortStep == /\ Sais /\ Top1.ph = "sort" /\ SetTop([Top1 EXCEPT !.arr = Induce(Top1, Top1.lms), !.ph = "name"]) /\ UNCHANGED <<ret, pc>> /\ Rest
NameStep == /\ Sais /\ Top1.ph = "name"
            /\ LET f == Top1  nm == Naming(f, f.arr)  sub == [k \in 1..Len(f.lms) |-> nm[3][f.lms[k]]]
                   shared == Len(f.lms) - 1 - nm[2] IN
               IF shared = 0
               THEN /\ ret' = [k \in 1..Len(sub) |-> CHOOSE j \in 0..(Len(sub) - 1) : sub[j + 1] = k - 1]
                    /\ SetTop([f EXCEPT !.names = sub, !.ph = "final"])
               ELSE /\ stack' = Append([stack EXCEPT ![Len(stack)] = [f EXCEPT !.names = sub, !.ph = "final"]], Frame(sub, Len(f.lms) - 1 - shared))
                    /\ UNCHANGED ret
            /\ UNCHANGED pc /\ Rest
FinalStep == /\ Sais /\ Top1.ph = "final"      \* ret: the order of the leftmost-S suffixes
             /\ LET arr == Induce(Top1, [k \in 1..Len(ret) |-> Top1.lms[ret[k] + 1]]) IN
                IF Len(stack) = 1 THEN /\ sa' = Tail(arr) /\ stack' = <<>> /\ ret' = <<>> /\ pc' = "lcp"
                ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ ret' = arr /\ UNCHANGED <<sa, pc>>
             /\ UNCHANGED <<text, lcp, i, prev>>
RECURSIVE Compare(_, _, _)
Compare(a, b, n) == IF a < Len(text) /\ b < Len(text) /\ At(text, a) = At(text, b) THEN Compare(a + 1, b + 1, n + 1) ELSE n
LcpStep == /\ pc = "lcp"
           /\ IF i = Len(text) THEN pc' = "done" /\ UNCHANGED <<lcp, i, prev>>
              ELSE LET r == CHOOSE r \in 1..Len(sa) : sa[r] = i
                       k == IF prev > 1 THEN prev - 1 ELSE 0
                       l == IF r = Len(sa) THEN 0 ELSE Compare(i + k, sa[r + 1] + k, k) IN
                   lcp' = [lcp EXCEPT ![r] = l] /\ prev' = l /\ i' = i + 1 /\ UNCHANGED pc
           /\ UNCHANGED <<text, stack, ret, sa>>
Next == TypesStep \/ SortStep \/ NameStep \/ FinalStep \/ LcpStep
Spec == Init /\ [][Next]_vars
\* ----
SAOK == pc = "lcp" => IsSA(text, sa) /\ IsSAFast(text, sa)
LCPOK == pc = "done" => IsLCP(text, sa, lcp) /\ IsLCPFast(text, sa, lcp)
\* the linear check of common prefixes agrees with the definition, on right and wrong arrays
AgreeLCP == (pc = "done" /\ Len(text) <= 4) =>
    \A a \in [1..Len(text) -> 0..Len(text)] : IsLCP(text, sa, a) <=> IsLCPFast(text, sa, a)
\* what is skipped when the common prefix is compared is common indeed
SkipOK == pc = "lcp" /\ i < Len(text) => LET r == CHOOSE r \in 1..Len(sa) : sa[r] = i  k == IF prev > 1 THEN prev - 1 ELSE 0 IN
             r = Len(sa) \/ (k <= Len(text) - i /\ k <= Len(text) - sa[r + 1] /\ \A d \in 1..k : text[i + d] = text[sa[r + 1] + d])
\* every string of the recursion ends in its only 0, its characters are 0..mx, its types are right
FramesOK == \A k \in DOMAIN stack : LET f == stack[k] IN
    /\ f.s[Len(f.s)] = 0 /\ \A p \in 1..(Len(f.s) - 1) : f.s[p] \in 1..f.mx
    /\ f.ty # <<>> => \A p \in 0..(Len(f.s) - 2) : f.ty[p + 1] <=> Less(f.s, p, p + 1)
\* what a frame gets from the one above is the order of its leftmost-S suffixes
RetOK == (Sais /\ Top1.ph = "final" /\ ret # <<>>) =>
    /\ {ret[k] : k \in DOMAIN ret} = 0..(Len(Top1.lms) - 1) /\ Len(ret) = Len(Top1.lms)
    /\ \A k \in 1..(Len(ret) - 1) : Less(Top1.s, Top1.lms[ret[k] + 1], Top1.lms[ret[k + 1] + 1])
\* equal names, equal substrings up to and with the next leftmost-S position
SubEnd(f, k) == IF k = Len(f.lms) THEN f.lms[k] ELSE f.lms[k + 1]
Piece(f, k) == SubSeq(f.s, f.lms[k] + 1, SubEnd(f, k) + 1)
NamesOK == \A n \in DOMAIN stack : LET f == stack[n] IN f.names # <<>> =>
    \A a, b \in 1..Len(f.lms) : (f.names[a] = f.names[b]) <=> Piece(f, a) = Piece(f, b)
Deepest == Len(stack) <= 9
\* the definition and the linear check of it agree, on right and wrong arrays
Agree == (pc # "done" /\ i = 0 /\ stack # <<>> /\ Len(stack) = 1 /\ Top1.ph = "types" /\ Len(text) <= 4) =>
    \A a \in [1..Len(text) -> 0..(Len(text) - 1)] : IsSA(text, a) <=> IsSAFast(text, a)
Emit == pc = "done" => PrintT("@@" \o ToJson(text))
=============================================================================
