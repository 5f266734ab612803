----------------------------- MODULE TraceBloom -----------------------------
EXTENDS Bloom, TraceBase
tvars == <<cfg, bits, added, tid, l>>
TraceInit == TraceStart /\ cfg = T.cfg /\ bits = {} /\ added = {}
TraceAdd == Is("add") /\ Add(Ev.e)
(* all elements looked up through one overload: r[e] is the answer for e    *)
TraceProbe == /\ Is("probe")
              /\ Len(Ev.r) = Len(cfg.h)
              /\ \A e \in Elems : Ev.r[e] = Present(e)
              /\ UNCHANGED bvars
TraceLookup == Is("lookup") /\ Lookup(Ev.e, Ev.r)
TraceClear == Is("clear") /\ Clear
TraceSet == Is("set") /\ SetBits(Range(Ev.bits))
TraceNext == TraceAdd \/ TraceProbe \/ TraceLookup \/ TraceClear \/ TraceSet
             \/ (TraceDone /\ UNCHANGED bvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
