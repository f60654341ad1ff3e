---------------------------- MODULE FolkloreImpl ----------------------------
(* C14, the array with a list of written positions: a position counts as   *)
(* written when its entry points into the list and the list points back.   *)
(* Initialising forgets the list only. Refines InitArr.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Vals
VARIABLES fst, val, list, iv, last
vars == <<fst, val, list, iv, last>>
View == <<fst, val, list, iv>>
Written(j) == fst[j] < Len(list) /\ list[fst[j] + 1] = j
Get(j) == IF Written(j) THEN val[j] ELSE iv
Init == /\ fst = [j \in 0..(N - 1) |-> 0] /\ val = [j \in 0..(N - 1) |-> 0] /\ list = << >> /\ iv \in Vals /\ last = <<"init", iv>>
Set(j, x) == /\ val' = [val EXCEPT ![j] = x] /\ UNCHANGED iv
             /\ IF Written(j) THEN UNCHANGED <<fst, list>>
                ELSE fst' = [fst EXCEPT ![j] = Len(list)] /\ list' = Append(list, j)
InitAll(v) == iv' = v /\ list' = << >> /\ UNCHANGED <<fst, val>>
Next == \/ \E j \in 0..(N - 1), x \in Vals : Set(j, x) /\ last' = <<"set", j, x>>
        \/ \E v \in Vals : InitAll(v) /\ last' = <<"init", v>>
Spec == Init /\ [][Next]_vars
A == INSTANCE InitArr WITH arr <- [k \in 1..N |-> Get(k - 1)]
Refines == [][ CASE last'[1] = "set" -> A!Set(last'[2], last'[3])
                 [] last'[1] = "init" -> A!InitAll(N, last'[2]) ]_vars
ListOK == Len(list) <= N /\ \A k, m \in 1..Len(list) : list[k] = list[m] => k = m
Emit == PrintT("@@" \o ToJson(<<ToString(View), last', ToString(View')>>))
=============================================================================
