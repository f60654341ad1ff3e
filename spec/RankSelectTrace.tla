-------------------------- MODULE RankSelectTrace --------------------------
(* State: the abstract bit sequence of the structure under observation.    *)
EXTENDS TraceBase, RankSelect
VARIABLE seq       \* [n, d]: n bits as 16-bit digits; small ones also as bits s

\* A structure is built (in one of the ways of building one) from a bit sequence.
Build == /\ Op("build")
         /\ seq' = [n |-> E.n, d |-> E.d]
         /\ E.size = E.n
         /\ E.acc = E.d                     \* every bit read back
\* every rank and rank_0 (positions 0..n) of a structure of moderate size
Ranks == /\ Op("ranks") /\ UNCHANGED seq
         /\ LET s == [k \in 1..seq.n |-> DigitBit(seq.d, k - 1)]
            IN  /\ IsRankTable(s, E.r) /\ IsRank0Table(s, E.r0)
                /\ E.r1 = E.r
\* long: ranks at all multiples of 16, and at sampled positions
Coarse == /\ Op("coarse") /\ UNCHANGED seq
          /\ IsCoarseRankTable(seq.d, seq.n, E.r)
          /\ Len(E.q) = Len(E.a) /\ Len(E.q) = Len(E.a0)
          /\ \A k \in 1..Len(E.q) : /\ E.q[k] <= seq.n
                                    /\ E.a[k] = RankVia(seq.d, E.r, E.q[k])
                                    /\ E.a0[k] = E.q[k] - E.a[k]
\* all selects; the number of ones is counted here, not by the code
Selects == /\ Op("selects") /\ UNCHANGED seq
           /\ LET ones == Len(E.e)
              IN  /\ E.ones = ones /\ ones = OnesD(seq.d)
                  /\ IsSelectTableD(seq.d, seq.n, ones, E.e)

TraceInit == TraceStart /\ seq = [n |-> 0, d |-> << >>]
TraceNext == Build \/ Ranks \/ Coarse \/ Selects \/ (Finished /\ UNCHANGED seq)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, seq>>
=============================================================================
