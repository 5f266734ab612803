--------------------------- MODULE TraceReservoir ---------------------------
EXTENDS Reservoir, TraceBase
vars == <<kind, k, n, sample, tid, l>>
TraceInit == TraceStart /\ InitWith(T.cfg.kind, T.cfg.k)
Observed == sample' = Ev.sample /\ n' = Ev.count
TraceAdd == Is("add") /\ Add(Ev.e, Ev.r) /\ Observed
TraceIndex == Is("index") /\ SampleIndex(Ev.r) /\ Observed
(* add() and sample_index() on two copies with the same random numbers      *)
TraceTwin == Is("twin") /\ Ev.add = Ev.index /\ UNCHANGED rvars
TraceWrite == Is("write") /\ UserWrite(Ev.i, Ev.e) /\ Observed
(* m calls of sample_index() on a reservoir without unused slots, rs being  *)
(* the results that occurred                                                *)
TraceMany == /\ Is("many") /\ n >= k
             /\ \A i \in 1..Len(Ev.rs) : Ev.rs[i] \in Slots \cup (IF kind = "plain" THEN {-1} ELSE {})
             /\ n' = (IF kind = "plain" THEN n + Ev.m ELSE n)
             /\ UNCHANGED <<kind, k, sample>> /\ Observed
TraceNext == TraceAdd \/ TraceIndex \/ TraceTwin \/ TraceWrite \/ TraceMany \/ (TraceDone /\ UNCHANGED rvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
