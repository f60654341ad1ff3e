------------------------------ MODULE TrieImpl -----------------------------
(* C17, the shape of the implementation: nodes in one growing container,   *)
(* edges to positions of it (the root is nobody's target, so 0 says there  *)
(* is no edge), items in a second one. The abstract trie moves along.      *)
EXTENDS TrieMap, Json
CONSTANTS Chars, MaxLen, Items, MaxIns
VARIABLES ct, st, n, last
vars == <<map, kids, ct, st, n, last>>
Keys == UNION {[1..m -> Chars] : m \in 0..MaxLen}
Fresh == [item |-> -1, edges |-> [c \in {} |-> 0]]
Init == TInit /\ ct = <<Fresh>> /\ st = <<>> /\ n = 0 /\ last = <<>>
Target(c, node, x) == IF x \in DOMAIN c[node + 1].edges THEN c[node + 1].edges[x] ELSE 0
\* one character further, adding node and edge where there is none
Step(acc, x) == LET c == acc[1]  node == acc[2]  t == Target(c, node, x) IN
    IF t # 0 THEN <<c, t>>
    ELSE <<Append([c EXCEPT ![node + 1].edges = (x :> Len(c)) @@ @], Fresh), Len(c)>>
ImplInsert(k, x) ==
    LET r == FoldLeft(Step, <<ct, 0>>, Append(k, End))
        it == r[1][r[2] + 1].item
    IN IF it = -1 THEN /\ st' = Append(st, x) /\ ct' = [r[1] EXCEPT ![r[2] + 1].item = Len(st)] /\ last' = <<Len(st), x, k>>
                  ELSE /\ st' = [st EXCEPT ![it + 1] = x] /\ ct' = r[1] /\ last' = <<it, x, k>>
Ins(k, x) == n < MaxIns /\ n' = n + 1 /\ Insert(k, x) /\ ImplInsert(k, x)
Next == \E k \in Keys : \E x \in Items : Ins(k, x)
Spec == Init /\ [][Next]_vars
\* ---- what the implementation answers
RECURSIVE Go(_, _, _)
Go(node, q, j) == IF j > Len(q) THEN node ELSE LET t == Target(ct, node, q[j]) IN IF t = 0 THEN -1 ELSE Go(t, q, j + 1)
Traverse(k) == LET t == Go(0, Append(k, End), 1) IN IF t = -1 THEN -1 ELSE IF ct[t + 1].item = -1 THEN -1 ELSE st[ct[t + 1].item + 1]
Edges(node) == SetToSortSeq(DOMAIN ct[node + 1].edges, <)
VNode(node, d) == [d |-> d, t |-> IF ct[node + 1].item # -1 THEN 1 ELSE 0, c |-> Edges(node)]
RECURSIVE DfsI(_, _)
DfsI(node, d) == FoldLeft(LAMBDA acc, c : acc \o DfsI(ct[node + 1].edges[c], d + 1), <<VNode(node, d)>>, Edges(node))
RECURSIVE BfsI(_, _)
BfsI(q, acc) == IF q = <<>> THEN acc
    ELSE LET p == q[1] IN BfsI(Tail(q) \o [j \in 1..Len(Edges(p[1])) |-> <<ct[p[1] + 1].edges[Edges(p[1])[j]], p[2] + 1>>], Append(acc, VNode(p[1], p[2])))
Queries == UNION {[1..m -> Chars] : m \in 0..(MaxLen + 1)}
TraverseOK == \A q \in Queries : Traverse(q) = IF q \in DOMAIN map THEN map[q] ELSE -1
SizeOK == Len(ct) = Size /\ Len(st) = Cardinality(DOMAIN map)
DfsOK == DfsI(0, 0) = Dfs(<<>>)
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
BfsOK == LET v == BfsI(<< <<0, 0>> >>, <<>>)  w == Dfs(<<>>) IN
         /\ \A j \in 1..(Len(v) - 1) : v[j].d <= v[j + 1].d
         /\ Len(v) = Len(w) /\ \A x \in {w[j] : j \in DOMAIN w} : Count(v, x) = Count(w, x)
\* the pointer an insertion returns is the item's, and no two keys share one
LastOK == last # <<>> => st[last[1] + 1] = last[2]
ItemsOK == \A a, b \in DOMAIN map : a # b => LET i(k) == ct[Go(0, Append(k, End), 1) + 1].item IN i(a) # i(b)
\* every node but the root is the target of exactly one edge, and never before its parent
TreeOK == \A t \in 1..(Len(ct) - 1) : \E p \in 0..(t - 1) : \E c \in DOMAIN ct[p + 1].edges :
             ct[p + 1].edges[c] = t /\ \A p2 \in 0..(Len(ct) - 1) : \A c2 \in DOMAIN ct[p2 + 1].edges : ct[p2 + 1].edges[c2] = t => p2 = p /\ c2 = c
EmitStep == [][PrintT("@@" \o ToJson(<<ToString(<<ct, st>>), <<"ins", last'[3], last'[2]>>, ToString(<<ct', st'>>)>>))]_vars
=============================================================================
