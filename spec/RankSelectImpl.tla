--------------------------- MODULE RankSelectImpl ---------------------------
(* C02, C03, the shape of the implementation: a two-level rank directory   *)
(* (a sum per block of B words, sums within the block per word) built by   *)
(* one scan, and samples of every T-th one for select, scaled down from    *)
(* words of 64 bits, B = 8, T = 512 = 64 * 8. Bits of the last word beyond *)
(* the length may be anything. For every sequence up to N bits: rank and   *)
(* select as computed are rank and select as defined in RankSelect.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, B, N
T == W * B
D == INSTANCE RankSelect
VARIABLES n, word,       \* length; words as [0..W-1 -> {0,1}], one more word than needed is never there
          blk,           \* block sums, blk[k+1] for block k
          sub,           \* sub[k+1][w] : ones of block k before its word w
          i, sum, cur,   \* the scan: next word, ones of the current block so far, sums of the current block
          tips, j, thr, pc
vars == <<n, word, blk, sub, i, sum, cur, tips, j, thr, pc>>
Pop(w) == Cardinality({c \in 0..W-1 : w[c] = 1})
NoSub == [w \in 0..B-1 |-> 0]
NB == n \div T + 1
WordCount(m) == IF m = 0 THEN 1 ELSE (m - 1) \div W + 1
Init == /\ n \in 0..N
        /\ word \in [0..(WordCount(n) - 1) -> [0..W-1 -> {0, 1}]]
        /\ blk = [k \in 1..NB |-> 0] /\ sub = [k \in 1..NB |-> NoSub]
        /\ i = 1 /\ sum = (IF n = 0 THEN 0 ELSE Pop(word[0])) /\ cur = NoSub
        /\ tips = << >> /\ j = 1 /\ thr = T
        /\ pc = IF n = 0 THEN "done" ELSE "scan"
\* one iteration of the scan over the complete words
Scan == /\ pc = "scan" /\ i < n \div W
        /\ LET b == i \div B IN
           IF i % B = 0
           THEN /\ sub' = [sub EXCEPT ![b] = cur]                       \* the block that ended
                /\ blk' = [blk EXCEPT ![b + 1] = blk[b] + sum]
                /\ cur' = NoSub /\ sum' = Pop(word[i])
           ELSE /\ cur' = [cur EXCEPT ![i % B] = sum]
                /\ sum' = sum + Pop(word[i]) /\ UNCHANGED <<sub, blk>>
        /\ i' = i + 1 /\ UNCHANGED <<n, word, tips, j, thr, pc>>
\* the last, partly used block
Close == /\ pc = "scan" /\ ~(i < n \div W)
         /\ LET b == i \div B IN
            IF i % B # 0
            THEN sub' = [sub EXCEPT ![b + 1] = [cur EXCEPT ![i % B] = sum]] /\ UNCHANGED blk
            ELSE /\ blk' = [blk EXCEPT ![b + 1] = blk[b] + sum]
                 /\ sub' = [sub EXCEPT ![b] = cur, ![b + 1] = NoSub]
         /\ pc' = "tips" /\ tips' = <<0>> /\ UNCHANGED <<n, word, i, sum, cur, j, thr>>
Tip == /\ pc = "tips" /\ j < NB
       /\ IF thr <= blk[j + 1] THEN tips' = Append(tips, j - 1) /\ thr' = thr + T ELSE UNCHANGED <<tips, thr>>
       /\ j' = j + 1 /\ UNCHANGED <<n, word, blk, sub, i, sum, cur, pc>>
Done == /\ pc = "tips" /\ j = NB /\ tips' = Append(tips, NB - 1) /\ pc' = "done"
        /\ UNCHANGED <<n, word, blk, sub, i, sum, cur, j, thr>>
Next == Scan \/ Close \/ Tip \/ Done
Spec == Init /\ [][Next]_vars

Seq01 == [k \in 1..n |-> word[(k - 1) \div W][(k - 1) % W]]
\* ---- the queries as computed
RankI(x) == LET b == x \div T IN
    blk[b + 1] + sub[b + 1][(x \div W) % B] + (IF x % W # 0 THEN Cardinality({c \in 0..((x % W) - 1) : word[x \div W][c] = 1}) ELSE 0)
RECURSIVE Bsearch(_, _, _)
Bsearch(l, r, x) == IF l + 1 < r THEN LET c == (l + r) \div 2 IN IF x < blk[c + 1] THEN Bsearch(l, c, x) ELSE Bsearch(c, r, x) ELSE l
RECURSIVE WalkWords(_, _, _)
WalkWords(off, idx, x) == IF off < B /\ idx < n \div W + 1 /\ x > sub[idx \div B + 1][idx % B] THEN WalkWords(off + 1, idx + 1, x) ELSE off
SelWord(w, k) == CHOOSE c \in 0..W-1 : w[c] = 1 /\ Cardinality({d \in 0..c : w[d] = 1}) = k
SelectI(x) ==
    LET t == x \div T
        l0 == tips[t + 1]
        r0 == IF t + 1 < Len(tips) THEN tips[t + 2] + 1 ELSE NB
        left == Bsearch(l0, r0, x)
        k == x + 1 - blk[left + 1]
        off == WalkWords(1, left * B + 1, k) - 1
        k2 == k - sub[left + 1][off]
        ret == left * T + off * W
    IN ret + SelWord(word[ret \div W], k2)

RankOK == pc = "done" => \A x \in 0..n : RankI(x) = D!Rank(Seq01, x) /\ x - RankI(x) = D!Rank0(Seq01, x)
SelectOK == pc = "done" /\ n > 0 => \A x \in 0..(D!Ones(Seq01) - 1) : SelectI(x) = D!Select(Seq01, x)
\* the linear-time characterisations used on traces accept exactly the defined tables
RT == [k \in 1..(n + 1) |-> D!Rank(Seq01, k - 1)]
ST == [k \in 1..D!Ones(Seq01) |-> D!Select(Seq01, k - 1)]
CharOK == pc = "done" => /\ D!IsRankTable(Seq01, RT)
                         /\ D!IsRank0Table(Seq01, [k \in 1..(n + 1) |-> D!Rank0(Seq01, k - 1)])
                         /\ D!IsSelectTable(Seq01, D!Ones(Seq01), ST)
                         /\ \A k \in 1..(n + 1) : ~D!IsRankTable(Seq01, [RT EXCEPT ![k] = @ + 1])
                         /\ \A k \in DOMAIN ST : \A x \in 0..n : x # ST[k] => ~D!IsSelectTable(Seq01, D!Ones(Seq01), [ST EXCEPT ![k] = x])
Terminates == pc # "done" => ENABLED Next
Emit == pc' = "done" => PrintT("@@" \o ToJson(<<n, Seq01>>))
=============================================================================
