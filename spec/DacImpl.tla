------------------------------ MODULE DacImpl -------------------------------
(* C07, the shape of the implementation: chunks of a value in layers of     *)
(* the given widths, bit vectors that say which elements of a layer go on,  *)
(* access by following ranks. For every list up to N values of at most B    *)
(* bits and every list of widths that covers it: access returns the value   *)
(* and the depth is the one defined in Dac.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS B, N, MaxLayers
VARIABLES in, un, layers, paths, k, pc
vars == <<in, un, layers, paths, k, pc>>
P2(e) == 2^e
R == INSTANCE RankSelect
Word(x) == IF x = 0 THEN << >> ELSE <<x>>
D == INSTANCE Dac WITH vals <- [j \in 1..Len(in) |-> Word(in[j])], units <- un
Lists == UNION {[1..m -> 0..(P2(B) - 1)] : m \in 1..N}
Units == UNION {[1..m -> 1..B] : m \in 1..MaxLayers}
Init == /\ in \in Lists /\ un \in Units /\ D!Covers(un, [j \in 1..Len(in) |-> Word(in[j])])
        /\ layers = [d \in 1..Len(un) |-> << >>] /\ paths = [d \in 1..(Len(un) - 1) |-> << >>] /\ k = 1 /\ pc = "put"
Rest(x, d) == x \div P2(D!SumOf(SubSeq(un, 1, d)))          \* x after d layers took their bits
\* the value reaches layer d (0-based) when something was left before it, at every depth up to d
Reaches(x, d) == \A e \in 1..d : Rest(x, e) > 0
Put == /\ pc = "put" /\ k <= Len(in)
       /\ LET x == in[k] IN
          /\ layers' = [d \in DOMAIN layers |-> IF Reaches(x, d - 1) THEN Append(layers[d], Rest(x, d - 1) % P2(un[d])) ELSE layers[d]]
          /\ paths' = [d \in DOMAIN paths |-> IF Reaches(x, d - 1) THEN Append(paths[d], IF Rest(x, d) > 0 THEN 1 ELSE 0) ELSE paths[d]]
       /\ k' = k + 1 /\ UNCHANGED <<in, un, pc>>
Finish == pc = "put" /\ k > Len(in) /\ pc' = "done" /\ UNCHANGED <<in, un, layers, paths, k>>
Next == Put \/ Finish
Spec == Init /\ [][Next]_vars
RECURSIVE Get(_, _), Depth(_, _)
Get(d, i) == layers[d][i + 1] * P2(D!SumOf(SubSeq(un, 1, d - 1)))
             + (IF d < Len(un) /\ paths[d][i + 1] = 1 THEN Get(d + 1, R!Rank(paths[d], i)) ELSE 0)
Depth(d, i) == IF d < Len(un) /\ paths[d][i + 1] = 1 THEN Depth(d + 1, R!Rank(paths[d], i)) ELSE d - 1
AccessOK == pc = "done" => \A i \in 0..(Len(in) - 1) : Get(1, i) = in[i + 1]
DepthOK == pc = "done" => LET dep == [i \in 1..Len(in) |-> Depth(1, i - 1)]  l == [j \in 1..Len(in) |-> Word(in[j])]
                          IN D!DepthsExact(l, un, dep)
Emit == pc' = "done" => PrintT("@@" \o ToJson(<<un, in>>))
=============================================================================
