----------------------------- MODULE StreamImpl ----------------------------
(* C20, the shape of the implementation: a stream of bytes. A kind of      *)
(* object is a list of fields, each a fixed value ("v"), or a vector ("n", *)
(* its length first, its elements Elem bytes wide); a field "d" is not     *)
(* written but derived from the first one when reading ends. Reading goes  *)
(* field by field into the object that is there, one step each; what is    *)
(* left of an earlier content would show. Refines Stream, which knows      *)
(* neither bytes nor fields.                                               *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Slots, MaxQ, Elem
Layout == [a |-> <<"n">>, b |-> <<"v", "n", "d">>, c |-> <<"n", "v", "n">>]
Values == [a |-> { << <<>> >>, << <<5>> >>, << <<7, 7>> >> },
           b |-> { <<3, <<>>, 4>>, <<1, <<2, 0>>, 2>> },
           c |-> { << <<>>, 0, <<9>> >>, << <<1>>, 2, <<>> >> }]
CONSTANT Kinds
VARIABLES obj,      \* slots in use -> [k, v]: fields as they are in memory
          bytes,    \* written and not read yet
          rd,       \* the reading under way: [o, k, f: next field, rest: bytes not yet consumed] or none
          val, q    \* the abstract objects and stream
vars == <<obj, bytes, rd, val, q>>
S == INSTANCE Stream
None == [o |-> -1]
Init == S!SInit /\ obj = [o \in {} |-> 0] /\ bytes = <<>> /\ rd = None
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE [j \in 1..Elem |-> IF j = 1 THEN l[1] ELSE 0] \o Flat(Tail(l))
FieldBytes(t, x) == CASE t = "v" -> <<x>> [] t = "n" -> <<Len(x)>> \o Flat(x) [] OTHER -> <<>>
RECURSIVE Encode(_, _, _)
Encode(k, v, f) == IF f > Len(Layout[k]) THEN <<>> ELSE FieldBytes(Layout[k][f], v[f]) \o Encode(k, v, f + 1)
Idle == rd = None
Put(o, k, v) == Idle /\ obj' = (o :> [k |-> k, v |-> v]) @@ obj /\ S!Put(o, k, v) /\ UNCHANGED <<bytes, rd>>
Drop(o) == Idle /\ o \in DOMAIN obj /\ obj' = [x \in DOMAIN obj \ {o} |-> obj[x]] /\ S!Drop(o) /\ UNCHANGED <<bytes, rd>>
Write(o) == /\ Idle /\ o \in DOMAIN obj /\ Len(q) < MaxQ
            /\ LET w == Encode(obj[o].k, obj[o].v, 1) IN bytes' = bytes \o w /\ S!Write(o, Len(w))
            /\ UNCHANGED <<obj, rd>>
\* an object that has the kind keeps its memory; otherwise a default-constructed one takes the slot
Fresh(k) == [f \in 1..Len(Layout[k]) |-> IF Layout[k][f] = "n" THEN <<>> ELSE 0]
Begin(o) == /\ Idle /\ q # <<>>
            /\ LET k == Head(q).k IN
               /\ obj' = IF o \in DOMAIN obj /\ obj[o].k = k THEN obj ELSE (o :> [k |-> k, v |-> Fresh(k)]) @@ obj
               /\ rd' = [o |-> o, k |-> k, f |-> 1, left |-> Len(bytes)]
            /\ UNCHANGED <<bytes, val, q>>
Resize(l, n) == [j \in 1..n |-> IF j <= Len(l) THEN l[j] ELSE 0]
Field == /\ rd # None /\ rd.f <= Len(Layout[rd.k])
         /\ LET t == Layout[rd.k][rd.f]  old == obj[rd.o].v[rd.f] IN
            IF t = "v" THEN obj' = [obj EXCEPT ![rd.o].v[rd.f] = bytes[1]] /\ bytes' = Tail(bytes)
            ELSE IF t = "n" THEN LET n == bytes[1]  room == Resize(old, n) IN
                 /\ obj' = [obj EXCEPT ![rd.o].v[rd.f] = [j \in 1..n |-> bytes[2 + (j - 1) * Elem]]]
                 /\ Len(room) = n /\ bytes' = SubSeq(bytes, 2 + n * Elem, Len(bytes))
            ELSE obj' = [obj EXCEPT ![rd.o].v[rd.f] = obj[rd.o].v[1] + 1] /\ UNCHANGED bytes
         /\ rd' = [rd EXCEPT !.f = @ + 1] /\ UNCHANGED <<val, q>>
End == /\ rd # None /\ rd.f > Len(Layout[rd.k]) /\ S!Read(rd.o) /\ rd' = None /\ UNCHANGED <<obj, bytes>>
Next == \/ \E o \in Slots : \/ \E k \in Kinds : \E v \in Values[k] : Put(o, k, v)
                            \/ Drop(o) \/ Write(o) \/ Begin(o)
        \/ Field \/ End
Spec == Init /\ [][Next]_vars
\* a finished object is its abstract value; what is in the stream is what was written and not read
ObjOK == Idle => DOMAIN obj = DOMAIN val /\ \A o \in DOMAIN obj : obj[o] = val[o]
RECURSIVE Whole(_)
Whole(l) == IF l = <<>> THEN <<>> ELSE Encode(l[1].k, l[1].v, 1) \o Whole(Tail(l))
BytesOK == Idle => bytes = Whole(q)
LengthsOK == \A j \in DOMAIN q : q[j].n = Len(Encode(q[j].k, q[j].v, 1))
\* reading is one step of Stream, and it takes off exactly the item's bytes
Refines == [][rd # None /\ rd' = None => S!Read(rd.o) /\ rd.left - Len(bytes) = Head(q).n]_vars
\* ---- for the behaviours replayed: the abstract operation, between idle states
St == ToString(<<val, [j \in DOMAIN q |-> <<q[j].k, q[j].v>>]>>)
StN == ToString(<<val', [j \in DOMAIN q' |-> <<q'[j].k, q'[j].v>>]>>)
EmitStep == [][(rd' = None /\ (val' # val \/ q' # q)) => PrintT("@@" \o ToJson(<<St,
    IF rd # None THEN <<"read", rd.o>>
    ELSE IF Len(q') > Len(q) THEN <<"write", CHOOSE o \in DOMAIN val : q'[Len(q')].k = val[o].k /\ q'[Len(q')].v = val[o].v>>
    ELSE IF DOMAIN val' # DOMAIN val /\ DOMAIN val' \subseteq DOMAIN val THEN <<"drop", CHOOSE o \in DOMAIN val : o \notin DOMAIN val'>>
    ELSE LET o == CHOOSE o \in DOMAIN val' : o \notin DOMAIN val \/ val'[o] # val[o] IN <<"put", o, val'[o].k, val'[o].v>>, StN>>))]_vars
=============================================================================
