---------------------------- MODULE RecurseImpl ----------------------------
(* C24, the shape of the implementation: function objects live in cells.   *)
(* recursive() has the function in a cell of its own call, which ends when *)
(* it returns; the object it returns carries a copy. Copies of the object  *)
(* are made and objects destroyed at any time before they are used. Every  *)
(* call runs the function of a live cell, which holds the given function.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNodes, Cells
VARIABLES p, log,
          cell,    \* [Cells -> "free", "f" (the function) or "junk" (freed and used by something else)]
          obj,     \* the cells of the function objects the user has
          calls    \* the open calls: [v, next, at: the cell of the function that runs]
vars == <<p, log, cell, obj, calls>>
Trees == UNION {{q \in [1..n -> 0..n] : \A k \in 1..n : q[k] < k} : n \in 0..(MaxNodes - 1)}
FreeCells == {c \in Cells : cell[c] # "f"}
Init == p \in Trees /\ log = << >> /\ cell = [c \in Cells |-> "free"] /\ obj = {} /\ calls = << >>
\* recursive(f): the parameter in cell c, the result in cell d; then c is gone
Make == /\ obj = {} /\ log = << >>
        /\ \E c, d \in FreeCells : c # d /\ cell' = [cell EXCEPT ![c] = "junk", ![d] = "f"] /\ obj' = {d}
        /\ UNCHANGED <<p, log, calls>>
Copy == /\ calls = << >> /\ log = << >> /\ Cardinality(obj) = 1
        /\ \E d \in FreeCells : cell' = [cell EXCEPT ![d] = "f"] /\ obj' = obj \cup {d}
        /\ UNCHANGED <<p, log, calls>>
Destroy == /\ calls = << >> /\ log = << >> /\ Cardinality(obj) > 1
           /\ \E c \in obj : cell' = [cell EXCEPT ![c] = "junk"] /\ obj' = obj \ {c}
           /\ UNCHANGED <<p, log, calls>>
\* the call of the object passes its own function; a call of the function passes on what it was given, by reference or as a copy
Begin == /\ calls = << >> /\ log = << >> /\ \E c \in obj : calls' = <<[v |-> 0, next |-> 0, at |-> c]>>
         /\ log' = <<<<0, 0>>>> /\ UNCHANGED <<p, cell, obj>>
Top == calls[Len(calls)]
Kids(v) == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : p[k] = v)
Down == /\ calls # << >> /\ Top.next < Len(Kids(Top.v))
        /\ \E copied \in BOOLEAN :
             LET w == Kids(Top.v)[Top.next + 1]
                 up == [calls EXCEPT ![Len(calls)].next = @ + 1]
             IN IF copied THEN \E d \in FreeCells : /\ cell' = [cell EXCEPT ![d] = cell[Top.at]]
                                                    /\ calls' = Append(up, [v |-> w, next |-> 0, at |-> d])
                ELSE UNCHANGED cell /\ calls' = Append(up, [v |-> w, next |-> 0, at |-> Top.at])
        /\ log' = Append(log, <<Kids(Top.v)[Top.next + 1], Len(calls)>>) /\ UNCHANGED <<p, obj>>
Back == /\ calls # << >> /\ Top.next = Len(Kids(Top.v))
        /\ LET own == Top.at \notin obj /\ \A k \in 1..(Len(calls) - 1) : calls[k].at # Top.at
           IN cell' = IF own THEN [cell EXCEPT ![Top.at] = "junk"] ELSE cell
        /\ calls' = SubSeq(calls, 1, Len(calls) - 1)
        /\ log' = Append(log, <<-Top.v - 1, Len(calls) - 1>>) /\ UNCHANGED <<p, obj>>
Next == Make \/ Copy \/ Destroy \/ Begin \/ Down \/ Back
Spec == Init /\ [][Next]_vars
\* ----
Live == \A k \in 1..Len(calls) : cell[calls[k].at] = "f"
Bar == [k \in 1..Len(calls) |-> [v |-> calls[k].v, next |-> calls[k].next]]
A == INSTANCE Recurse WITH stack <- Bar
Refines == [][A!RNext]_<<p, Bar, log>>
Done == calls = << >> /\ log # << >>
WalkOK == A!Complete(p, log) <=> Done
\* of all logs that differ from a complete one in an entry, none is complete
Others == Done /\ Len(p) <= 2 => \A k \in 1..Len(log), v \in (-3)..2, d \in 0..3 :
            <<v, d>> # log[k] => ~A!Complete(p, [log EXCEPT ![k] = <<v, d>>])
\* no call of anything but a live function is possible, and every walk can end
Emit == Done => PrintT("@@" \o ToJson(p))
=============================================================================
