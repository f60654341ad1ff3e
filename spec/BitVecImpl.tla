---------------------------- MODULE BitVecImpl ------------------------------
(* C01, the shape of the implementation: a bit vector is a length and a    *)
(* list of words of W bits. Bits of the last word beyond the length are    *)
(* unspecified ("stale") and must never become visible again. Iterators    *)
(* are pairs (word, bit), moved by the arithmetic of BitReference.hpp.     *)
(* Refines BitVec for one object; W, N and the operations are small.       *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS W,          \* bits per word (64 in the code)
          N           \* largest length
VARIABLES words,      \* Seq([0..W-1 -> {0,1}])
          size,
          last        \* label of the last step (not part of the state: see View)
vars == <<words, size, last>>
View == <<words, size>>
Bits == {0, 1}
Zero == [c \in 0..W-1 |-> 0]
WordCount(n) == IF n = 0 THEN 1 ELSE (n - 1) \div W + 1

\* std::vector::resize: truncates, or appends zero words
ResizeWords(ws, m) == [k \in 1..m |-> IF k <= Len(ws) THEN ws[k] ELSE Zero]

\* ---- iterators
MkIter(p) == [seg |-> p \div W, ctz |-> p % W]
CQuot(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)      \* C++ division
Adv(it, d) == [seg |-> it.seg + (IF d >= 0 THEN (it.ctz + d) \div W ELSE CQuot(d - W + it.ctz + 1, W)),
               ctz |-> ((d % W) + it.ctz) % W]                  \* d & (W-1): W is a power of two in the code
Inc(it) == IF it.ctz = W - 1 THEN [seg |-> it.seg + 1, ctz |-> 0] ELSE [it EXCEPT !.ctz = @ + 1]
Dec(it) == IF it.ctz = 0 THEN [seg |-> it.seg - 1, ctz |-> W - 1] ELSE [it EXCEPT !.ctz = @ - 1]
Diff(x, y) == (x.seg - y.seg) * W + x.ctz - y.ctz
Less(x, y) == x.seg < y.seg \/ (x.seg = y.seg /\ x.ctz < y.ctz)
IterOK == \A p, q \in 0..(3 * W) :
            /\ Adv(MkIter(p), q - p) = MkIter(q)
            /\ Diff(MkIter(p), MkIter(q)) = p - q
            /\ Less(MkIter(p), MkIter(q)) = (p < q)
            /\ Inc(MkIter(p)) = MkIter(p + 1)
            /\ Dec(MkIter(p + 1)) = MkIter(p)
ASSUME IterOK

\* ---- fill with masks
High(c) == [b \in 0..W-1 |-> IF b >= c THEN 1 ELSE 0]           \* all ones << c
Low(c)  == [b \in 0..W-1 |-> IF b <= W - 1 - c THEN 1 ELSE 0]   \* all ones >> c
And(x, y) == [b \in 0..W-1 |-> IF x[b] = 1 /\ y[b] = 1 THEN 1 ELSE 0]
Not(x) == [b \in 0..W-1 |-> 1 - x[b]]
Ones == High(0)
Over(w, mask, bit) == [b \in 0..W-1 |-> IF mask[b] = 1 THEN bit ELSE w[b]]
FillWords(ws, b, e, bit) ==
    IF ~Less(b, e) THEN ws
    ELSE LET back == Adv(e, -1)
             eclz == W - (back.ctz + 1)
         IN IF b.seg < back.seg
            THEN [k \in 1..Len(ws) |-> LET s == k - 1 IN
                    IF s = b.seg THEN Over(ws[k], High(b.ctz), bit)
                    ELSE IF s > b.seg /\ s < back.seg THEN Over(ws[k], Ones, bit)
                    ELSE IF s = back.seg THEN Over(ws[k], IF e.ctz > 0 THEN Not(High(e.ctz)) ELSE Ones, bit)
                    ELSE ws[k]]
            ELSE [ws EXCEPT ![b.seg + 1] = Over(@, And(High(b.ctz), Low(eclz)), bit)]

\* ---- operations
New(n, b)    == /\ words' = FillWords([k \in 1..WordCount(n) |-> Zero], MkIter(0), MkIter(n), b)
                /\ size' = n
Resize(n, b) == /\ LET r == ResizeWords(words, WordCount(n)) IN
                   words' = IF n > size THEN FillWords(r, MkIter(size), MkIter(n), b) ELSE IF n < size THEN r ELSE words
                /\ size' = n
Assign(n, b) == /\ words' = FillWords(ResizeWords(words, WordCount(n)), MkIter(0), MkIter(n), b)
                /\ size' = n
Fill(x, y, b) == words' = FillWords(words, MkIter(x), MkIter(y), b) /\ size' = size
Set(x, b)    == /\ words' = [words EXCEPT ![(x \div W) + 1] = [@ EXCEPT ![x % W] = b]]
                /\ size' = size

Label(l) == last' = l
Init == words = <<Zero>> /\ size = 0 /\ last = <<"init">>
Next == \/ \E n \in 0..N, b \in Bits : New(n, b) /\ Label(<<"newf", n, b>>)
        \/ \E n \in 0..N, b \in Bits : Resize(n, b) /\ Label(<<"resb", n, b>>)
        \/ \E b \in Bits : size < N /\ Resize(size + 1, b) /\ Label(<<"push", b>>)
        \/ \E n \in 0..N, b \in Bits : Assign(n, b) /\ Label(<<"asn", n, b>>)
        \/ \E x, y \in 0..size, b \in Bits : Fill(x, y, b) /\ Label(<<"fill", x, y, b>>)
        \/ \E x \in 0..(size - 1), b \in Bits : Set(x, b) /\ Label(<<"set", x, b>>)
Spec == Init /\ [][Next]_vars

\* ---- the bits a user sees, and the refinement
Bit(p) == words[(p \div W) + 1][p % W]
Content == [k \in 1..size |-> Bit(k - 1)]
TypeOK == size \in 0..N /\ Len(words) = WordCount(size)
Obj == [o \in {0} |-> Content]
A == INSTANCE BitVec WITH Objs <- {0}, bv <- Obj
AbsNext == \/ \E n \in 0..N, b \in Bits : A!New(0, n, b) \/ A!Resize(0, n, b) \/ A!Assign(0, n, b)
           \/ \E b \in Bits : A!PushBack(0, b)
           \/ \E x, y \in 0..size, b \in Bits : A!Fill(0, x, y, b)
           \/ \E x \in 0..size, b \in Bits : A!Set(0, x, b)
\* every step is the abstract step of its label
Refines == [][ CASE last'[1] = "newf" -> A!New(0, last'[2], last'[3])
                 [] last'[1] = "resb" -> A!Resize(0, last'[2], last'[3])
                 [] last'[1] = "push" -> A!PushBack(0, last'[2])
                 [] last'[1] = "asn"  -> A!Assign(0, last'[2], last'[3])
                 [] last'[1] = "fill" -> A!Fill(0, last'[2], last'[3], last'[4])
                 [] last'[1] = "set"  -> A!Set(0, last'[2], last'[3]) ]_vars
Emit == PrintT("@@" \o ToJson(<<ToString(View), last', ToString(View')>>))
=============================================================================
