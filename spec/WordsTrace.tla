----------------------------- MODULE WordsTrace ----------------------------
EXTENDS TraceBase, Words
B01(c) == IF c THEN 1 ELSE 0
Full == <<65535, 65535, 65535, 65535>>
W(x, b) ==
    /\ E.p8 = [k \in 1..8 |-> Pop(b, 8 * (k - 1), 8 * k)] /\ E.q8 = E.p8
    /\ E.p16 = [k \in 1..4 |-> Pop(b, 16 * (k - 1), 16 * k)] /\ E.q16 = E.p16
    /\ E.p32 = <<Pop(b, 0, 32), Pop(b, 32, 64)>> /\ E.q32 = E.p32
    /\ E.p64 = Pop(b, 0, 64) /\ E.q64 = E.p64
    /\ E.c64 = [k \in 1..65 |-> Pop(b, 0, k - 1)]
    /\ E.c32 = [k \in 1..33 |-> Pop(b, 0, k - 1)]
    /\ E.c8 = [k \in 1..9 |-> Pop(b, 0, k - 1)]
    /\ E.p11 = Fields2(b, 1, 1) /\ E.p10 = Fields2(b, 1, 0)
    /\ E.p111 = Fields3(b, 1, 1, 1) /\ E.p110 = Fields3(b, 1, 1, 0)
    /\ E.p101 = Fields3(b, 1, 0, 1) /\ E.p100 = Fields3(b, 1, 0, 0)
    /\ E.ctz = Ctz(b, 0, 64) /\ E.clz = Clz(b, 0, 64)
    /\ E.ctz32 = <<Ctz(b, 0, 32), Ctz(b, 32, 64)>> /\ E.clz32 = <<Clz(b, 0, 32), Clz(b, 32, 64)>>
    \* the i-th one is at the position sel gives, from 1
    /\ Len(E.sel) = Pop(b, 0, 64)
    /\ \A k \in 1..Len(E.sel) : /\ E.sel[k] \in 1..64 /\ b[E.sel[k] - 1] = 1
                                /\ k > 1 => E.sel[k - 1] < E.sel[k]
    /\ E.sw = [k \in 1..6 |-> OfBits(Exchanged(b, <<1, 2, 4, 8, 16, 32>>[k]))]
    /\ Len(E.br) = Len(E.bq)
    /\ \A k \in 1..Len(E.bq) : E.br[k] = OfBits(Extract(b, E.bq[k][1], E.bq[k][2]))
Word == Op("word") /\ LET b == Bits(E.x) IN W(E.x, b)
Masks == /\ Op("masks")
         /\ E.w = [k \in 1..65 |-> OfBits([j \in 0..63 |-> B01(j < k - 1)])] /\ E.wt = E.w
         /\ E.o = [k \in 1..64 |-> OfBits([j \in 0..63 |-> B01(j = k - 1)])] /\ E.ot = E.o
Pad == <<[j \in 1..1 |-> 23130], [j \in 1..1 |-> 23130], [j \in 1..1 |-> 23130], [j \in 1..1 |-> 23130]>>
B256 == /\ Op("b256")
        /\ LET b == Bits256(E.x)
               s == {j \in 0..255 : b[j] = 1}
           IN /\ E.zero = B01(s = {}) /\ E.zeroi = E.zero
              /\ E.pop = Cardinality(s)
              /\ E.ctz = IF s = {} THEN 256 ELSE Min(s)
              /\ E.clz = IF s = {} THEN 256 ELSE 255 - Max(s)
              /\ E.copy = Pad \o E.x \o Pad /\ E.xx = E.x
              /\ E.ones = Pad \o <<Full, Full, Full, Full>> \o Pad
              /\ E.zeros = Pad \o <<<<>>, <<>>, <<>>, <<>>>> \o Pad
              /\ Len(E.y) = Len(E.m) /\ E.yi = E.y
              /\ \A k \in 1..Len(E.m) : E.y[k] = Words256(XorMapped(b, E.m[k]))
Show == Op("show") /\ E.n \in 1..8 /\ E.d = Shown(Bits(E.x), E.n)
TraceInit == TraceStart
TraceNext == Word \/ Masks \/ B256 \/ Show \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i>>
=============================================================================
