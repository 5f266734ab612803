---------------------------- MODULE TraceChainLaw ----------------------------
EXTENDS ChainLaw, Dbl, TraceBase
vars == <<k, n, dist, tid, l>>
TraceInit == TraceStart /\ InitWith(T.cfg.k)
TraceAdd == Is("add") /\ Add
TraceHeads == Is("heads") /\ Ev.n = n /\ Hist(Ev.hist) = Heads /\ UNCHANGED lvars
TraceChains == Is("chains") /\ Ev.n = n /\ Hist(Ev.hist) = Chains /\ UNCHANGED lvars
(* the slot (0: none) taken by the add number m > k alone                   *)
TraceStep == /\ Is("step") /\ Ev.m > k
             /\ Hist(Ev.hist) = Reduce([i \in 0..k |-> IF i = 0 THEN Ev.m - k ELSE 1])
             /\ UNCHANGED lvars
(* the slot s and the successor m + j chosen by the add number m > k:       *)
(* s + 1000 j -> probability, 0: none                                       *)
TraceMeasure == /\ Is("measure") /\ Ev.m > k /\ UNCHANGED lvars
                /\ LET p == Hist(Ev.law)
                   IN /\ DOMAIN p = {0} \cup {s + 1000 * j : s, j \in 1..k}
                      /\ \A x \in DOMAIN p : DNear(p[x], IF x = 0 THEN DRat(Ev.m - k, Ev.m) ELSE DRat(1, Ev.m * k), 11)
TraceNext == TraceAdd \/ TraceHeads \/ TraceChains \/ TraceStep \/ TraceMeasure \/ (TraceDone /\ UNCHANGED lvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
