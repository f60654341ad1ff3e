---------------------------- MODULE HashMapImpl -----------------------------
(* C09, the shape of the implementation: a table of quotients. The low bits *)
(* of a (hashed) key choose the home slot; a slot holds the remaining bits  *)
(* with three marks: occupied (some key has this home), continuation (same  *)
(* home as the slot before), shifted (not in its home), and a deleted mark  *)
(* that leaves the key in place. Runs of keys of one home stand in the      *)
(* order of their homes, shifted right, around the end of the table.        *)
(* Growing and shrinking decode every key from the marks and set it again.  *)
(* Not scaled: the same sizes exist in the code. Refines HashMap.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS KeySeq,    \* the keys; the hash is the identity (any permutation relabels the keys)
          LF,        \* maximum load in percent
          Buckets,   \* possible initial numbers of slots (powers of two)
          Vals, Reserves
VARIABLES t,         \* the table: [nb, sl : slots 0..nb-1, size, used]
          mp,        \* the map it stands for: what looking up every key finds
          last
vars == <<t, mp, last>>
View == t
Keys4 == <<0, 1, 2, 3>>  Keys8 == Keys4 \o <<4, 5, 6, 7>>  Keys16 == Keys8 \o <<8, 9, 10, 11, 12, 13, 14, 15>>
Keys6 == <<0, 8, 16, 7, 15, 1>>     \* three keys of home 0, two of home 7 of eight slots
Keys7 == Keys6 \o <<23>>  Keys8w == Keys7 \o <<9>>
Keys == 0..(Len(KeySeq) - 1)      \* keys by their numbers, as in HashMap
Key(k) == KeySeq[k + 1]
Null == [o |-> 0, c |-> 0, s |-> 0, d |-> 0, q |-> 0, v |-> 0]
Fresh(nb) == [nb |-> nb, sl |-> [j \in 0..(nb - 1) |-> Null], size |-> 0, used |-> 0]
MaxSize(T) == (T.nb * LF) \div 100
MinSize(T) == (T.nb * (LF - 1)) \div 400 + 1
Succ(T, j) == (j + 1) % T.nb
Pred(T, j) == (j + T.nb - 1) % T.nb
IsNull(T, j) == LET x == T.sl[j] IN x.o = 0 /\ x.c = 0 /\ x.s = 0 /\ x.d = 0
\* the walk to the first slot of the run of home j; fuel bounds it (no answer = it would not stop)
RECURSIVE Back(_, _, _, _), Forth(_, _, _, _)
Back(T, j, n, fuel) == LET p == Pred(T, j) m == IF T.sl[p].o = 1 THEN n + 1 ELSE n IN
                       IF fuel = 0 THEN <<-1, -1>> ELSE IF T.sl[p].s = 1 THEN Back(T, p, m, fuel - 1) ELSE <<p, m>>
Forth(T, j, n, fuel) == IF n = 0 THEN j ELSE IF fuel = 0 THEN -1
                        ELSE LET p == Succ(T, j) IN Forth(T, p, IF T.sl[p].c = 0 THEN n - 1 ELSE n, fuel - 1)
RunHead(T, j) == IF T.sl[j].s = 0 THEN j
              ELSE LET b == Back(T, j, 0, 2 * T.nb) IN IF b[1] = -1 THEN -1 ELSE Forth(T, b[1], b[2], 2 * T.nb)
\* the slot of a run starting at j that holds quotient q, or <<FALSE, slot after the run>>
RECURSIVE Find(_, _, _, _)
Find(T, j, q, fuel) == IF fuel = 0 THEN <<FALSE, -1>> ELSE IF T.sl[j].q = q THEN <<TRUE, j>>
                       ELSE LET n == Succ(T, j) IN IF T.sl[n].c = 1 THEN Find(T, n, q, fuel - 1) ELSE <<FALSE, n>>
Home(T, k) == k % T.nb
Quo(T, k) == k \div T.nb
Get(T, k) == LET i == Home(T, k) IN
             IF T.sl[i].o = 0 THEN <<FALSE, 0>>
             ELSE LET f == Find(T, RunHead(T, i), Quo(T, k), 2 * T.nb) IN
                  IF f[1] /\ T.sl[f[2]].d = 0 THEN <<TRUE, T.sl[f[2]].v>> ELSE <<FALSE, 0>>
RECURSIVE Empty(_, _, _)
Empty(T, j, fuel) == IF fuel = 0 THEN -1 ELSE IF IsNull(T, j) THEN j ELSE Empty(T, Succ(T, j), fuel - 1)
\* contents of slots i..j-1 move one to the right, the occupied marks stay
RECURSIVE Shift(_, _, _)
Shift(T, i, j) == IF j = i THEN T
                  ELSE LET p == Pred(T, j) IN
                       Shift([T EXCEPT !.sl[j] = [o |-> @.o, c |-> T.sl[p].c, s |-> 1, d |-> T.sl[p].d, q |-> T.sl[p].q, v |-> T.sl[p].v]], i, p)
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
NewNb(n) == Pow2((n * 99) \div LF + 1, 1)
RECURSIVE Set(_, _, _), Rebuild(_, _), Decode(_, _, _, _, _)
\* all slots in the order of the walk: pending homes, current home
Decode(T, j, homes, cnt, nx) ==
    IF cnt = T.used THEN nx
    ELSE IF homes = << >> /\ ~(T.sl[j].o = 1 /\ T.sl[j].s = 0) /\ T.sl[j].s = 0 THEN Decode(T, Succ(T, j), << >>, cnt, nx)
    ELSE LET hs == IF T.sl[j].o = 1 THEN Append(homes, j) ELSE homes
             \* homes[1] is the home of the current run; it is replaced where a run starts
             h2 == IF T.sl[j].c = 0 /\ T.sl[j].s = 1 /\ Len(homes) > 0 THEN Tail(hs) ELSE hs
             k  == T.sl[j].q * T.nb + h2[1]
             n2 == IF T.sl[j].d = 0 THEN Set(nx, k, T.sl[j].v) ELSE nx
             jn == Succ(T, j)
         IN Decode(T, jn, IF T.sl[jn].s = 1 THEN h2 ELSE << >>, cnt + 1, n2)
First(T) == CHOOSE j \in 0..(T.nb - 1) : (T.sl[j].o = 1 /\ T.sl[j].s = 0) /\ \A m \in 0..(j - 1) : ~(T.sl[m].o = 1 /\ T.sl[m].s = 0)
Rebuild(T, n) == IF T.used = 0 THEN Fresh(NewNb(n)) ELSE Decode(T, First(T), << >>, 0, Fresh(NewNb(n)))
Reserve(T, n) == IF n <= T.size THEN T ELSE Rebuild(T, n)
Max(a, b) == IF a > b THEN a ELSE b
Set(T0, k, x) ==
    LET T == IF T0.used = MaxSize(T0) THEN Reserve(T0, Max(T0.size, 1) * 2) ELSE T0
        i == Home(T, k)  q == Quo(T, k)  hd == RunHead(T, i)
        f == IF T.sl[i].o = 1 THEN Find(T, hd, q, 2 * T.nb) ELSE <<FALSE, hd>>
        j == f[2]
    IN IF f[1] THEN [T EXCEPT !.sl[j].d = 0, !.sl[j].v = x, !.size = @ + T.sl[j].d]
       ELSE LET S == IF IsNull(T, j) THEN T ELSE Shift(T, j, Empty(T, j, T.nb))
                new == IF T.sl[i].o = 0
                       THEN [[S EXCEPT !.sl[i].o = 1] EXCEPT !.sl[j] = [o |-> @.o, c |-> 0, s |-> (IF j # i THEN 1 ELSE 0), d |-> 0, q |-> q, v |-> x]]
                       ELSE [S EXCEPT !.sl[j] = [o |-> @.o, c |-> 1, s |-> 1, d |-> 0, q |-> q, v |-> x]]
            IN [new EXCEPT !.size = @ + 1, !.used = @ + 1]
Erase(T0, k) ==
    LET T == IF T0.size = MinSize(T0) THEN Reserve(T0, T0.size * 2) ELSE T0
        i == Home(T, k)
        f == IF T.sl[i].o = 1 THEN Find(T, RunHead(T, i), Quo(T, k), 2 * T.nb) ELSE <<FALSE, 0>>
    IN IF f[1] /\ T.sl[f[2]].d = 0 THEN [T EXCEPT !.sl[f[2]].d = 1, !.size = @ - 1] ELSE T

Present(T) == {k \in Keys : Get(T, Key(k))[1]}
MapOf(T) == [k \in Present(T) |-> Get(T, Key(k))[2]]
To(T) == t' = T /\ mp' = MapOf(T)
Init == \E nb \in Buckets : t = Fresh(nb) /\ mp = MapOf(Fresh(nb)) /\ last = <<"new", nb>>
Next == \/ \E k \in Keys, x \in Vals : To(Set(t, Key(k), x)) /\ last' = <<"set", k, x>>
        \/ \E k \in Keys : To(Erase(t, Key(k))) /\ last' = <<"del", k>>
        \/ \E n \in Reserves : To(Reserve(t, n)) /\ last' = <<"rsv", n>>
Spec == Init /\ [][Next]_vars

A == INSTANCE HashMap WITH Objs <- {0}, nk <- Len(KeySeq), map <- [o \in {0} |-> mp]
Refines == [][ CASE last'[1] = "set" -> A!Set(0, last'[2], last'[3])
                 [] last'[1] = "del" -> A!Erase(0, last'[2])
                 [] last'[1] = "rsv" -> A!Reserve(0) ]_vars
SizeOK == t.size = Cardinality(DOMAIN mp)
\* every slot in use is counted, one slot is always free (so that every walk stops), the first slot of a run is known by its marks
UsedOK == LET U == {j \in 0..(t.nb - 1) : ~IsNull(t, j)} IN Cardinality(U) = t.used /\ (t.used < t.nb \/ t.nb = 1)
RunsOK == Cardinality({j \in DOMAIN t.sl : t.sl[j].o = 1}) = Cardinality({j \in DOMAIN t.sl : ~IsNull(t, j) /\ t.sl[j].c = 0})
Code(T) == <<T.nb, T.size, T.used>> \o [j \in 1..T.nb |-> LET x == T.sl[j - 1] IN x.o + 2 * x.c + 4 * x.s + 8 * x.d + 16 * x.v + 32 * x.q]
Emit == PrintT("@@" \o ToJson(<<Code(t), last', Code(t')>>))
=============================================================================
