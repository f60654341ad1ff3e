---------------------------- MODULE WaveletTrace ---------------------------
(* C05: the wavelet tree under observation, as the sequence it was built from. *)
EXTENDS TraceBase, SymSeq
VARIABLE seq
Build == Op("build") /\ Len(E.s) > 0 /\ seq' = E.s /\ E.size = Len(E.s)
Copy  == Op("copy") /\ UNCHANGED seq /\ E.size = Len(seq)
All   == /\ Op("all") /\ UNCHANGED seq
         /\ E.a = seq /\ E.va = seq                 \* access, access of the combined query
         /\ IsRankTable(seq, E.r, {})               \* rank
         /\ E.rc = E.r /\ E.vr = E.r                \* rank told the element, combined query
TraceInit == TraceStart /\ seq = << >>
TraceNext == Build \/ Copy \/ All \/ (Finished /\ UNCHANGED seq)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, seq>>
=============================================================================
