------------------------------ MODULE OracleImpl ---------------------------
(* C15, the shape of the implementation: the on-line construction of the   *)
(* factor oracle in a double array. State s has base b[s] (None: no cell); *)
(* its transition with character c, unless it leads to s+1, is in the cell *)
(* b[s] XOR c, which holds the target and nothing else: whose cell it is   *)
(* follows from the character on the target's incoming edge. The array     *)
(* grows by blocks; which free base is taken is left open here, so that    *)
(* the invariants hold for whatever order the free cells are linked in.    *)
EXTENDS Oracle, FiniteSets, Bitwise, Json
CONSTANTS Chars, MaxLen, K                 \* K: block size, 256 in the code; Chars \subseteq 0..K-1
VARIABLES text, b, next, usedS, usedT, lrs, i, k, pc, o
vars == <<text, b, next, usedS, usedT, lrs, i, k, pc, o>>
None == -1
N == Len(text)
C(s) == IF s = 0 THEN 0 ELSE text[s]
Size == Len(usedT)
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Blocks(n) == K * (IF n = 0 THEN 1 ELSE (n + K - 1) \div K)
Rep(n, x) == [j \in 1..n |-> x]
Init == /\ text \in Texts
        /\ b = Rep(N + 1, None) /\ next = [Rep(Blocks(N), 0) EXCEPT ![1] = 0]
        /\ usedS = Rep(Blocks(N), FALSE) /\ usedT = [Rep(Blocks(N), FALSE) EXCEPT ![1] = TRUE]
        /\ lrs = Rep(N + 1, 0) /\ i = 0 /\ k = 0 /\ pc = "char" /\ o = Start
Trans(s, n) ==
    IF C(s + 1) = C(n) THEN s + 1
    ELSE IF b[s + 1] = None THEN 0
    ELSE LET cell == b[s + 1] ^^ C(n) IN
         IF ~usedT[cell + 1] THEN 0
         ELSE IF next[cell + 1] = 0 \/ C(next[cell + 1]) # C(n) THEN 0 ELSE next[cell + 1]
\* the targets kept in cells of s
Cells(s) == {t \in 1..N : \E c \in 0..(K - 1) : LET cell == b[s + 1] ^^ c IN usedT[cell + 1] /\ next[cell + 1] = t /\ C(t) = c}
Fits(x, cs, uS, uT) == ~uS[x + 1] /\ \A c \in cs : ~uT[(x ^^ c) + 1]
Bases(cs, uS, uT) == {x \in 0..(Len(uS) - 1) : Fits(x, cs, uS, uT)}
\* where base may be placed: in the array as it is, or grown by one block when nothing fits
Grown(cs) == IF Bases(cs, usedS, usedT) # {} THEN 0 ELSE K
Char == /\ pc = "char" /\ i < N
        /\ lrs' = [lrs EXCEPT ![1] = i + 1] /\ k' = IF i = 0 THEN 1 ELSE lrs[i + 1]
        /\ pc' = "climb" /\ UNCHANGED <<text, b, next, usedS, usedT, i, o>>
Insert(g, nb, ts, s, n) ==         \* the targets ts of s move to base nb, and n becomes one
    LET uS == usedS \o Rep(g, FALSE)  uT == usedT \o Rep(g, FALSE)  nx == next \o Rep(g, 0)
        old == b[s + 1]
        gone == {old ^^ C(t) : t \in ts}
        come == [x \in {nb ^^ C(t) : t \in ts \union {n}} |-> CHOOSE t \in ts \union {n} : nb ^^ C(t) = x]
    IN /\ b' = [b EXCEPT ![s + 1] = nb]
       /\ usedS' = [x \in 1..Len(uS) |-> IF x = nb + 1 THEN TRUE ELSE IF old # None /\ x = old + 1 THEN FALSE ELSE uS[x]]
       /\ usedT' = [x \in 1..Len(uT) |-> IF x - 1 \in DOMAIN come THEN TRUE ELSE IF x - 1 \in gone THEN FALSE ELSE uT[x]]
       /\ next' = [x \in 1..Len(nx) |-> IF x - 1 \in DOMAIN come THEN come[x - 1] ELSE IF x - 1 \in gone THEN 0 ELSE nx[x]]
Up == k' = lrs[k + 1] /\ UNCHANGED <<text, lrs, i, pc, o>>
Climbing == pc = "climb" /\ k < i + 1 /\ Trans(k, i + 1) = 0
First == /\ Climbing /\ b[k + 1] = None
         /\ LET cs == {C(i + 1)}  g == Grown(cs) IN
            \E nb \in Bases(cs, usedS \o Rep(g, FALSE), usedT \o Rep(g, FALSE)) : Insert(g, nb, {}, k, i + 1)
         /\ Up
Smooth == /\ Climbing /\ b[k + 1] # None /\ ~usedT[(b[k + 1] ^^ C(i + 1)) + 1]
          /\ LET cell == b[k + 1] ^^ C(i + 1) IN next' = [next EXCEPT ![cell + 1] = i + 1] /\ usedT' = [usedT EXCEPT ![cell + 1] = TRUE]
          /\ UNCHANGED <<b, usedS>> /\ Up
Conflict == /\ Climbing /\ b[k + 1] # None /\ usedT[(b[k + 1] ^^ C(i + 1)) + 1]
            /\ LET ts == Cells(k)  cs == {C(t) : t \in ts} \union {C(i + 1)}  g == Grown(cs) IN
               \E nb \in Bases(cs, usedS \o Rep(g, FALSE), usedT \o Rep(g, FALSE)) : Insert(g, nb, ts, k, i + 1)
            /\ Up
Close == /\ pc = "climb" /\ ~Climbing
         /\ lrs' = [lrs EXCEPT ![i + 2] = IF k = i + 1 THEN 0 ELSE Trans(k, i + 1)]
         /\ o' = AddChar(o, C(i + 1)) /\ i' = i + 1 /\ pc' = "char" /\ UNCHANGED <<text, b, next, usedS, usedT, k>>
Finish == /\ pc = "char" /\ i = N /\ pc' = "done"
          /\ next' = [x \in 1..Size |-> IF usedT[x] THEN next[x] ELSE 0] /\ UNCHANGED <<text, b, usedS, usedT, lrs, i, k, o>>
Next == Char \/ First \/ Smooth \/ Conflict \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- what the finished structure answers
Image(s, c) == IF s < N /\ C(s + 1) = c THEN s + 1
               ELSE IF b[s + 1] = None THEN None
               ELSE LET t == next[(b[s + 1] ^^ c) + 1] IN IF t <= s \/ C(t) # c THEN None ELSE t
ImageOK == pc = "done" => \A s \in 0..N : \A c \in 0..(K - 1) : Image(s, c) = IF c \in DOMAIN o.tr[s + 1] THEN o.tr[s + 1][c] ELSE None
\* while building: what is in the cells is the oracle of the prefix, and the supply links are its supply links
LinksOK == pc = "char" => \A s \in 1..i : lrs[s + 1] = o.sup[s + 1]
TransOK == pc = "char" => \A s \in 0..(i - 1) : \A n \in 1..i : Trans(s, n) = IF C(n) \in DOMAIN o.tr[s + 1] THEN o.tr[s + 1][C(n)] ELSE 0
BasesDistinct == \A s, t \in 0..N : s # t /\ b[s + 1] # None => b[s + 1] # b[t + 1]
BasesMarked == \A s \in 0..N : b[s + 1] # None => usedS[b[s + 1] + 1]
\* ---- what is claimed of the oracle: of every prefix, as it is built on-line
Prefix == SubSeq(text, 1, i)
Words(n) == UNION {[1..m -> Chars] : m \in 0..n}
AtChar == pc = "char"
Weak == AtChar => \A a \in 0..i : \A e \in a..i : Accepts(o.tr, Sub(Prefix, a, e))
Edges(s) == Cardinality(DOMAIN o.tr[s + 1])
States == AtChar => Len(o.tr) = i + 1
RECURSIVE Sum(_)
Sum(s) == IF s < 0 THEN 0 ELSE Edges(s) + Sum(s - 1)
FewEdges == AtChar => Sum(i) >= i /\ (i > 0 => Sum(i) <= 2 * i - 1)
Homogeneous == AtChar => \A s \in 0..i : \A c \in DOMAIN o.tr[s + 1] : o.tr[s + 1][c] > s /\ Prefix[o.tr[s + 1][c]] = c
\* the longest word accepted is the text, and it is the only one of its length
OnlyText == AtChar => \A w \in [1..i -> Chars] : Accepts(o.tr, w) => w = Prefix
\* the definition: from s, by c, the end of the first occurrence, at or behind the end of the shortest word of s, of that word with c
RECURSIVE MinWords(_, _)
MinWords(s, ms) == IF s > i THEN ms
    ELSE LET from == {j \in 0..(s - 1) : Prefix[s] \in DOMAIN o.tr[j + 1] /\ o.tr[j + 1][Prefix[s]] = s}
             best == CHOOSE j \in from : \A j2 \in from : Len(ms[j + 1]) <= Len(ms[j2 + 1])
         IN MinWords(s + 1, Append(ms, Append(ms[best + 1], Prefix[s])))
Definition == AtChar => LET ms == MinWords(1, << <<>> >>) IN \A s \in 0..i : \A c \in Chars :
    LET w  == Append(ms[s + 1], c)
        at == {e \in (s + 1)..i : e - Len(w) >= s - Len(ms[s + 1]) /\ Sub(Prefix, e - Len(w), e) = w}
    IN IF at = {} THEN c \notin DOMAIN o.tr[s + 1]
       ELSE c \in DOMAIN o.tr[s + 1] /\ o.tr[s + 1][c] = CHOOSE e \in at : \A e2 \in at : e <= e2
Emit == pc = "done" => PrintT("@@" \o ToJson(<<text, usedT>>))
EmitText == (pc = "char" /\ i = 0) => PrintT("@@" \o ToJson(text))
=============================================================================
