------------------------------ MODULE MatchImpl ----------------------------
(* C16, the shape of the implementation: the seven matchers as step        *)
(* machines over one key and one text, one step per window (per character  *)
(* for Kmp). The tables they use are computed as the constructors do.      *)
(* Invariant: nothing behind the window has been missed or invented; for   *)
(* Kmp and TurboBom also what the automaton knows about the text is true.  *)
EXTENDS Match, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Chars, MaxKey, MaxText
VARIABLES alg, key, text, tab, pos, st, m, done
vars == <<alg, key, text, tab, pos, st, m, done>>
Oracle == INSTANCE Oracle
Algs == {"simple", "kmp", "bm", "bom", "turbo", "qs", "ms"}
W == Len(key)
N == Len(text)
At(q, j) == q[j + 1]                                     \* 0-based
\* ---- tables, of a key q
RECURSIVE KFall(_, _, _, _)
KFall(q, nx, j, n) == IF n # -1 /\ At(q, j) # At(q, n) THEN KFall(q, nx, j, nx[n + 1]) ELSE n
RECURSIVE KNext(_, _, _, _)
KNext(q, nx, j, n) ==
    IF j = Len(q) THEN nx
    ELSE LET n1 == KFall(q, nx, j, n) + 1 IN
         KNext(q, Append(nx, IF j + 1 < Len(q) /\ At(q, j + 1) = At(q, n1) THEN nx[n1 + 1] ELSE n1), j + 1, n1)
KmpOf(q) == KNext(q, <<-1>>, 0, -1)
LastBefore(q, c, e) == {j \in 0..(e - 1) : At(q, j) = c}   \* positions of c before e
SkipOf(q) == [c \in Chars |-> LET s == LastBefore(q, c, Len(q) - 1) IN IF s = {} THEN Len(q) ELSE Len(q) - Max(s) - 1]
Td1Of(q) == [c \in Chars |-> LET s == LastBefore(q, c, Len(q)) IN IF s = {} THEN Len(q) + 1 ELSE Len(q) - Max(s)]
MinShift(q, j) == LET s == LastBefore(q, At(q, j), j) IN IF s = {} THEN j + 1 ELSE j - Max(s)
PatOf(q) == SortSeq([j \in 1..Len(q) |-> j - 1], LAMBDA a, b : MinShift(q, a) < MinShift(q, b) \/ (MinShift(q, a) = MinShift(q, b) /\ a < b))
\* shifting the key by l leaves the characters of the first p pattern positions in agreement
Agrees(q, pat, p, l) == \A j \in 1..p : pat[j] - l >= 0 => At(q, pat[j]) = At(q, pat[j] - l)
RECURSIVE MatchShift(_, _, _, _)
MatchShift(q, pat, p, l) == IF l < Len(q) /\ ~Agrees(q, pat, p, l) THEN MatchShift(q, pat, p, l + 1) ELSE l
RECURSIVE Td2a(_, _, _)
Td2a(q, pat, t) == IF Len(t) = Len(q) + 1 THEN t ELSE Td2a(q, pat, Append(t, MatchShift(q, pat, Len(t), t[Len(t)])))
RECURSIVE Td2b(_, _, _, _)
Td2b(q, pat, p, l) == IF l < Len(q) /\ pat[p + 1] - l >= 0 /\ At(q, pat[p + 1]) = At(q, pat[p + 1] - l)
                      THEN Td2b(q, pat, p, MatchShift(q, pat, p, l + 1)) ELSE l
Td2Of(q) == LET pat == PatOf(q)  t == Td2a(q, pat, <<1>>) IN [p \in 1..(Len(q) + 1) |-> IF p <= Len(q) THEN Td2b(q, pat, p - 1, t[p]) ELSE t[p]]
TabOf(a, q) == CASE a = "kmp" -> [kmp |-> KmpOf(q)]
                 [] a = "bm" -> [skip |-> SkipOf(q)]
                 [] a = "bom" -> [tr |-> Oracle!OracleOf(Reverse(q))]
                 [] a = "turbo" -> [tr |-> Oracle!OracleOf(Reverse(q)), kmp |-> KmpOf(q)]
                 [] a = "qs" -> [td1 |-> Td1Of(q)]
                 [] a = "ms" -> [td1 |-> Td1Of(q), td2 |-> Td2Of(q), pat |-> PatOf(q)]
                 [] OTHER -> [none |-> 0]
Seqs(a, b) == UNION {[1..n -> Chars] : n \in a..b}
Init == /\ alg \in Algs /\ key \in Seqs(1, MaxKey) /\ text \in Seqs(0, MaxText) /\ tab = TabOf(alg, key)
        /\ pos = (IF alg \in {"bm", "bom", "turbo"} THEN W - 1 ELSE 0) /\ st = 0 /\ m = <<>> /\ done = FALSE
Same == UNCHANGED <<alg, key, text, tab>>
Stop == done' = TRUE /\ UNCHANGED <<pos, st, m>>
Go(p, s, mm) == pos' = p /\ st' = s /\ m' = mm /\ done' = FALSE
\* ---- steps
Simple == alg = "simple" /\ IF N < W \/ pos > N - W THEN Stop ELSE Go(pos + 1, st, IF OccursAt(key, text, pos) THEN Append(m, pos) ELSE m)
RECURSIVE Fall(_, _)
Fall(s, c) == IF s > -1 /\ At(key, s) # c THEN Fall(tab.kmp[s + 1], c) ELSE s
Kmp == alg = "kmp" /\ IF pos >= N THEN Stop
       ELSE LET s == Fall(st, At(text, pos)) + 1 IN
            IF s = W THEN Go(pos + 1, tab.kmp[s + 1], Append(m, pos + 1 - W)) ELSE Go(pos + 1, s, m)
Bm == alg = "bm" /\ IF pos >= N THEN Stop
      ELSE Go(pos + tab.skip[At(text, pos)], st, IF OccursAt(key, text, pos - W + 1) THEN Append(m, pos - W + 1) ELSE m)
\* leftmost position p >= lo such that the oracle reads text[p..back] backwards
RECURSIVE Back(_, _, _)
Back(p, s, lo) == IF p < lo THEN p
                  ELSE IF At(text, p) \in DOMAIN tab.tr[s + 1] THEN Back(p - 1, tab.tr[s + 1][At(text, p)], lo) ELSE p
Bom == alg = "bom" /\ IF pos >= N THEN Stop
       ELSE LET p == Back(pos, 0, pos - W + 1) IN IF p = pos - W THEN Go(pos + 1, st, Append(m, pos + 1 - W)) ELSE Go(p + W, st, m)
\* pos is back, st is critpos
RECURSIVE Feed(_, _, _)
Feed(s, p, e) == IF p = e \/ p = N THEN <<s, e>>
                 ELSE LET s1 == Fall(s, At(text, p)) + 1 IN IF s1 = W THEN <<s1, p + 1>> ELSE Feed(s1, p + 1, e)
Turbo == alg = "turbo" /\ IF pos >= N THEN Stop
         ELSE LET begin == pos - W + 1  p == Back(pos, 0, begin) + 1 IN
              IF p = begin THEN Go(pos + W - tab.kmp[W + 1], pos + 1, Append(m, begin))
              ELSE LET s0 == IF p > st THEN 0 ELSE st - begin
                       from == IF p > st THEN p ELSE st
                       f == Feed(s0, from, from + W \div 2)
                   IN Go(f[2] - f[1] + W - 1, f[2], m)
RECURSIVE Pre(_)
Pre(n) == IF n < W /\ At(key, tab.pat[n + 1]) = At(text, pos + tab.pat[n + 1]) THEN Pre(n + 1) ELSE n
Qs == alg = "qs" /\ IF pos + W > N THEN Stop
      ELSE LET mm == IF OccursAt(key, text, pos) THEN Append(m, pos) ELSE m IN
           IF pos + W = N THEN done' = TRUE /\ m' = mm /\ UNCHANGED <<pos, st>> ELSE Go(pos + tab.td1[At(text, pos + W)], st, mm)
Ms == alg = "ms" /\ IF pos + W > N THEN Stop
      ELSE LET n == Pre(0)  mm == IF n = W THEN Append(m, pos) ELSE m IN
           IF pos + W = N THEN done' = TRUE /\ m' = mm /\ UNCHANGED <<pos, st>>
           ELSE LET d1 == tab.td1[At(text, pos + W)]  d2 == tab.td2[n + 1] IN Go(pos + (IF d1 > d2 THEN d1 ELSE d2), st, mm)
Next == ~done /\ (Simple \/ Kmp \/ Bm \/ Bom \/ Turbo \/ Qs \/ Ms) /\ Same
Spec == Init /\ [][Next]_vars
\* ---- first position a match may still be reported at
Frontier == IF alg \in {"simple", "qs", "ms"} THEN pos ELSE pos - W + 1
Found == LET occ == Occ(key, text) IN IF done THEN m = occ ELSE m = SelectSeq(occ, LAMBDA p : p < Frontier)
\* the state of Kmp: a prefix of the key read last, and no longer one can still become a match
IsPrefixAt(n, e) == n <= e /\ \A d \in 1..n : text[e - n + d] = key[d]    \* key[0..n) = text[e-n..e)
KmpOK == (alg = "kmp" /\ ~done) => IsPrefixAt(st, pos) /\ \A n \in (st + 1)..(W - 1) : n <= pos /\ IsPrefixAt(n, pos) => (pos - n + W > N \/ ~OccursAt(key, text, pos - n))
\* TurboBom: the characters of the window before critpos are known to be the key's; critpos never lies behind the window
TurboOK == (alg = "turbo" /\ ~done /\ pos < N) => LET begin == pos - W + 1 IN begin >= 0 /\ (st > 0 => st >= begin /\ IsPrefixAt(st - begin, st))
Progress == [][done' \/ pos' > pos \/ (alg = "turbo" /\ (pos' > pos \/ st' > st))]_vars
\* tables against their definitions: td2[p] is the least shift that agrees with p matched characters and, for p < W, not with the mismatched one
Td2OK == alg = "ms" => \A p \in 0..W : LET ok(l) == Agrees(key, tab.pat, p, l) /\ (p < W /\ tab.pat[p + 1] - l >= 0 => At(key, tab.pat[p + 1]) # At(key, tab.pat[p + 1] - l))
                                       IN tab.td2[p + 1] = Min({l \in 1..(W - 1) : ok(l)} \union {W})
Emit == (alg = "simple" /\ pos = 0 /\ ~done) => PrintT("@@" \o ToJson(<<key, text>>))
=============================================================================
