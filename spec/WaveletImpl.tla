---------------------------- MODULE WaveletImpl -----------------------------
(* C05, the shape of the implementation: one bit vector per inner node of a *)
(* complete binary tree of the height of the greatest symbol, filled by one *)
(* scan; access, rank and the combined query descend with rank_0/rank_1.    *)
(* Checked against the definitions of SymSeq for every sequence up to N     *)
(* symbols of at most H bits.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS H, N
S == INSTANCE SymSeq
R == INSTANCE RankSelect
VARIABLES vec, h, nodes, i, pc
vars == <<vec, h, nodes, i, pc>>
Pow(e) == 2^e
Max(s) == CHOOSE m \in S!Symbols(s) : \A x \in S!Symbols(s) : x <= m
BitsFor(x) == CHOOSE b \in 1..(H + 1) : x < Pow(b) /\ (b > 1 => x >= Pow(b - 1))   \* SizeFitsInBits: at least 1
Seqs == UNION {[1..m -> 0..(Pow(H) - 1)] : m \in 1..N}
Init == /\ vec \in Seqs /\ h = BitsFor(Max(vec)) /\ i = 1 /\ pc = "fill"
        /\ nodes = [v \in 1..(Pow(h) - 1) |-> << >>]
BitOf(x, d) == (x \div Pow(h - 1 - d)) % 2
RECURSIVE NodeOf(_, _)
NodeOf(x, d) == IF d = 0 THEN 1 ELSE 2 * NodeOf(x, d - 1) + BitOf(x, d - 1)
Push == /\ pc = "fill" /\ i <= Len(vec)
        /\ nodes' = [v \in DOMAIN nodes |-> IF \E d \in 0..(h - 1) : NodeOf(vec[i], d) = v
                        THEN Append(nodes[v], BitOf(vec[i], CHOOSE d \in 0..(h - 1) : NodeOf(vec[i], d) = v)) ELSE nodes[v]]
        /\ i' = i + 1 /\ UNCHANGED <<vec, h, pc>>
Finish == pc = "fill" /\ i > Len(vec) /\ pc' = "done" /\ UNCHANGED <<vec, h, nodes, i>>
Next == Push \/ Finish
Spec == Init /\ [][Next]_vars
\* descend from the root: [value, idx]
RECURSIVE Down(_, _, _, _)
Down(d, id, idx, value) ==
    IF d = h THEN [v |-> value, r |-> idx]
    ELSE LET bv == nodes[id]  b == bv[idx + 1]
         IN Down(d + 1, 2 * id + b, IF b = 0 THEN R!Rank0(bv, idx) ELSE R!Rank(bv, idx), value + b * Pow(h - 1 - d))
QueriesOK == pc = "done" => \A x \in 0..(Len(vec) - 1) : LET q == Down(0, 1, x, 0) IN q.v = vec[x + 1] /\ q.r = S!RankAt(vec, x)
CharOK == pc = "done" => LET r == [k \in 1..Len(vec) |-> S!RankAt(vec, k - 1)] IN S!IsRankTable(vec, r, {}) /\ S!IsRankTableDecl(vec, r, {})
Emit == pc' = "done" => PrintT("@@" \o ToJson(vec))
=============================================================================
