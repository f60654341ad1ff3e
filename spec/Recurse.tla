------------------------------ MODULE Recurse ------------------------------
(* C24: a function that calls itself, walking over a tree. p[k] is the     *)
(* parent of node k (node 0 is the root, children in the order of their    *)
(* numbers). Entering node v at depth d is noted as <<v, d>>, leaving it   *)
(* as <<-v - 1, d>>. The calls that have not returned form a stack.        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC
VARIABLES p,       \* parents of nodes 1..Len(p)
          stack,   \* the open calls: [v, next: number of children called]
          log
Kids(q, v) == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : q[k] = v)
AllKids(q) == LET add(f, k) == [f EXCEPT ![q[k]] = Append(@, k)]
              IN FoldLeft(add, TLCEval([v \in 0..Len(q) |-> << >>]), [k \in 1..Len(q) |-> k])
Top == stack[Len(stack)]
Call(v) == /\ stack' = Append(stack, [v |-> v, next |-> 0])
           /\ log' = Append(log, <<v, Len(stack)>>) /\ UNCHANGED p
Start == stack = << >> /\ log = << >> /\ Call(0)
CallNext == /\ stack # << >>
            /\ LET ks == Kids(p, Top.v)
               IN /\ Top.next < Len(ks)
                  /\ stack' = Append([stack EXCEPT ![Len(stack)].next = @ + 1], [v |-> ks[Top.next + 1], next |-> 0])
                  /\ log' = Append(log, <<ks[Top.next + 1], Len(stack)>>) /\ UNCHANGED p
Return == /\ stack # << >> /\ Top.next = Len(Kids(p, Top.v))
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ log' = Append(log, <<-Top.v - 1, Len(stack) - 1>>) /\ UNCHANGED p
RInit(trees) == p \in trees /\ stack = << >> /\ log = << >>
RNext == Start \/ CallNext \/ Return
\* a log of a complete walk, in one pass (RecurseImpl: exactly the log of the machine above).
\* what is done so far: the open calls, innermost first as a linked list, and the number of children called
Step(ks, s, x) ==
    IF ~s.ok THEN s
    ELSE IF x[1] < 0 THEN IF s.d > 0 /\ s.open # << >> /\ x = <<-s.open[1] - 1, s.d - 1>> /\ s.next[s.open[1]] = Len(ks[s.open[1]])
                          THEN [s EXCEPT !.open = s.open[2], !.d = @ - 1] ELSE [s EXCEPT !.ok = FALSE]
    ELSE IF s.d = 0 THEN IF x = <<0, 0>> /\ ~s.begun THEN [s EXCEPT !.begun = TRUE, !.open = <<0, << >> >>, !.d = 1] ELSE [s EXCEPT !.ok = FALSE]
    ELSE LET v == s.open[1]
         IN IF s.next[v] < Len(ks[v]) /\ x = <<ks[v][s.next[v] + 1], s.d>>
            THEN [s EXCEPT !.next[v] = @ + 1, !.open = <<x[1], s.open>>, !.d = @ + 1] ELSE [s EXCEPT !.ok = FALSE]
Complete(q, l) ==
    LET ks == TLCEval(AllKids(q))
        e == FoldLeft(LAMBDA s, x : Step(ks, s, x), [ok |-> TRUE, begun |-> FALSE, d |-> 0, open |-> << >>, next |-> TLCEval([v \in 0..Len(q) |-> 0])], l)
    IN e.ok /\ e.begun /\ e.d = 0 /\ Len(l) = 2 * Len(q) + 2
=============================================================================
