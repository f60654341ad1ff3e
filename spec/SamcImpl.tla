------------------------------ MODULE SamcImpl -----------------------------
(* C18, C23, the shape of the implementation: the trie of a key set is laid *)
(* out level by level in one array of characters; the children by the same  *)
(* character of the nodes of one level all lie at one distance, the code of *)
(* the character at that depth, chosen so that they fall on free cells. A   *)
(* word of the bit vector of free cells has B bits here (64 in the code).   *)
(* Character Leaf ends a key; a cell that stayed free shows character Top.  *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Top, MaxLen, MaxKeys, B, MinLen
VARIABLES keys, cell, code, head, level, nextl, free, maxh, depth, ch, pc
vars == <<keys, cell, code, head, level, nextl, free, maxh, depth, ch, pc>>
Leaf == 0
Letters == 1..Top
Words(n) == UNION {[1..m -> Letters] : m \in 0..n}
Lv(d) == [c \in 0..Top |-> 0]
Init == /\ keys \in UNION {kSubset(n, {w \in Words(MaxLen) : Len(w) >= MinLen}) : n \in 1..MaxKeys}
        /\ cell = (0 :> 94) /\ code = <<>> /\ head = <<0, 1>>
        /\ level = << <<0, <<>> >> >>          \* the nodes of the level, as they are taken from the queue: cell and prefix
        /\ nextl = <<>> /\ free = <<>> /\ maxh = 0 /\ depth = 0 /\ ch = -1 /\ pc = "level"
HasEdge(p, c) == IF c = Leaf THEN p \in keys ELSE \E k \in keys : Len(k) > Len(p) /\ SubSeq(k, 1, Len(p)) = p /\ k[Len(p) + 1] = c
H(d) == head[d + 1]
Parents(c) == SelectSeq(level, LAMBDA n : HasEdge(n[2], c))
Offsets(c) == LET ps == Parents(c) IN [j \in 1..Len(ps) |-> ps[j][1] - H(depth)]
MinS(s) == Min({s[j] : j \in DOMAIN s})
MaxS(s) == Max({s[j] : j \in DOMAIN s})
Grow(f, n) == IF Len(f) < n THEN f \o [j \in 1..(n - Len(f)) |-> TRUE] ELSE f
IsFree(f, p) == p >= 0 /\ p < Len(f) /\ f[p + 1]
\* the least front on which every offset falls on a free cell
Lowest(f, offs) == LET lo == -MinS(offs) IN Min({y \in lo..(Len(f) + lo) : \A j \in DOMAIN offs : IsFree(f, y + offs[j])})
\* the same as the code finds it, word by word; "none" where it gives up
Bit(f, w, r) == w < (Len(f) - 1) \div B + 1 /\ IsFree(f, w * B + r)
Cands(f, offs, w) == LET lo == MinS(offs) IN
    {r \in 0..(B - 1) : \A j \in DOMAIN offs : LET d == offs[j] - lo  p == d \div B  s == d % B
                                                   x == s + r IN Bit(f, p + w + x \div B, x % B)}
RECURSIVE Scan(_, _, _)
FieldSize(f, offs) == (Len(f) + offs[1] - offs[Len(offs)]) \div B + 1
Scan(f, offs, w) == IF w >= FieldSize(f, offs) THEN -99999
                    ELSE LET cs == Cands(f, offs, w) IN IF cs # {} THEN B * w + Min(cs) - MinS(offs) ELSE Scan(f, offs, w + 1)
Level == /\ pc = "level"
         /\ IF level = <<>> THEN pc' = "done" /\ UNCHANGED <<keys, cell, code, head, level, nextl, free, maxh, depth, ch>>
            ELSE /\ code' = Append(code, [c \in 0..Top |-> 0]) /\ nextl' = <<>> /\ free' = <<>> /\ maxh' = 0 /\ ch' = 0 /\ pc' = "char"
                 /\ UNCHANGED <<keys, cell, head, level, depth>>
Place == /\ pc = "char" /\ ch <= Top
         /\ LET ps == Parents(ch)  offs == Offsets(ch) IN
            IF ps = <<>> THEN UNCHANGED <<keys, cell, code, head, level, nextl, free, maxh, depth, pc>>
            ELSE LET f == Grow(free, maxh + 1 + MaxS(offs) - MinS(offs))
                     y == Scan(f, offs, 0)
                     cd == H(depth + 1) - H(depth) + y
                     new == {H(depth) + offs[j] + cd : j \in DOMAIN offs}
                     ins == {x - H(depth + 1) : x \in new}
                 IN /\ Assert(new \cap DOMAIN cell = {} /\ y = Lowest(f, offs), <<keys, depth, ch, f, offs, y>>)
                    /\ code' = [code EXCEPT ![depth + 1][ch] = cd]
                    /\ cell' = [x \in DOMAIN cell \union new |-> IF x \in new THEN ch ELSE cell[x]]
                    /\ maxh' = Max(ins \union {maxh - 1}) + 1
                    /\ free' = [j \in 1..Len(f) |-> f[j] /\ j - 1 \notin ins]
                    /\ nextl' = IF ch = Leaf THEN nextl ELSE nextl \o [j \in DOMAIN ps |-> <<H(depth) + offs[j] + cd, Append(ps[j][2], ch)>>]
                    /\ UNCHANGED <<keys, head, level, depth, pc>>
         /\ ch' = ch + 1
EndLevel == /\ pc = "char" /\ ch > Top
            /\ head' = Append(head, H(depth + 1) + maxh) /\ level' = nextl /\ depth' = depth + 1 /\ pc' = "level"
            /\ UNCHANGED <<keys, cell, code, nextl, free, maxh, ch>>
Next == Level \/ Place \/ EndLevel
Spec == Init /\ [][Next]_vars
\* ---- the finished structure
Size == head[Len(head)]
Check(x) == IF x \in DOMAIN cell THEN cell[x] ELSE Top
InRange(x, d) == H(d) <= x /\ x < H(d + 1)
RECURSIVE Walk(_, _, _)
\* the node reached by q from node at depth d, -1: none
Walk(q, node, d) == IF d = Len(q) THEN node
    ELSE LET c == q[d + 1]  t == node + code[d + 1][c] IN
         IF c = Leaf \/ ~InRange(t, d + 1) \/ Check(t) # c THEN -1 ELSE Walk(q, t, d + 1)
Terminal(q) == LET n == Walk(q, 0, 0) IN
    IF n = -1 THEN -1 ELSE LET t == n + code[Len(q) + 1][Leaf] IN IF InRange(t, Len(q) + 1) /\ Check(t) = Leaf THEN t ELSE -1
Queries == UNION {[1..m -> 0..Top] : m \in 0..(MaxLen + 1)}
Done == pc = "done"
AcceptOK == Done => \A q \in Queries : (Terminal(q) # -1) <=> q \in keys
\* the reading never leaves the tables: a node reached at depth d has a row of codes and a range of its own level
InBounds == Done => \A q \in Queries : \A d \in 0..Len(q) : Walk(SubSeq(q, 1, d), 0, 0) # -1 => d < Len(code) /\ d + 2 < Len(head) + 1
CellsOK == Done => \A x \in DOMAIN cell : x < Size
\* ---- the dictionary: a key's number is the number of leaves in front of its own
Leaves == {x \in 1..(Size - 1) : Check(x) = Leaf}
Id(q) == LET t == Terminal(q) IN IF t = -1 THEN -1 ELSE Cardinality({x \in Leaves : x < t})
LeafNo(v) == CHOOSE x \in Leaves : Cardinality({y \in Leaves : y < x}) = v
RECURSIVE Up(_, _, _)
Up(x, d, w) == IF d = 0 THEN <<x, w>> ELSE LET c == Check(x) IN Up(x - code[d][c], d - 1, <<c>> \o w)
Access(v) == LET x == LeafNo(v)  d == Max({j \in 0..(Len(head) - 1) : H(j) <= x})  u == Up(x, d, <<>>) IN
             <<u[1], SubSeq(u[2], 1, Len(u[2]) - 1)>>
DictOK == Done => /\ Cardinality(Leaves) = Cardinality(keys)
                  /\ \A k \in keys : Id(k) \in 0..(Cardinality(keys) - 1) /\ Access(Id(k)) = <<0, k>>
                  /\ \A v \in 0..(Cardinality(keys) - 1) : Id(Access(v)[2]) = v
Emit == Done => PrintT("@@" \o ToJson(SetToSeq(keys)))
=============================================================================
