-------------------------- MODULE TraceReservoirLaw --------------------------
(* Histograms over every sequence of random numbers of a grid, against the  *)
(* exact law of the specification.                                          *)
EXTENDS ReservoirLaw, Dbl, TraceBase
vars == <<kind, k, n, dist, tid, l>>
TraceInit == TraceStart /\ InitWith(T.cfg.kind, T.cfg.k)
TraceAdd == Is("add") /\ Add
(* the content of the reservoir after n adds                                *)
TraceDist == Is("dist") /\ Ev.n = n /\ Hist(Ev.hist) = dist /\ UNCHANGED lvars
(* the result of the add number m alone, u being the used slots before it:  *)
(* outcome -> weight                                                        *)
StepLaw(m, u) ==
   IF kind = "plain" THEN IF m <= k THEN Pointed(m - 1)
                          ELSE [i \in (-1)..(k-1) |-> IF i = -1 THEN m - k ELSE 1]
                     ELSE [i \in 0..(IF u < k THEN u ELSE u - 1) |-> IF i = u THEN k - u ELSE 1]
TraceStep == Is("step") /\ Hist(Ev.hist) = Reduce(StepLaw(Ev.m, Ev.u)) /\ UNCHANGED lvars
(* the same with probabilities as doubles                                   *)
TraceMeasure == /\ Is("measure") /\ UNCHANGED lvars
                /\ LET w == StepLaw(Ev.m, Ev.u)
                       p == Hist(Ev.law)
                   IN DOMAIN p = DOMAIN w /\ \A x \in DOMAIN p : DNear(p[x], DRat(w[x], Total(w)), 11)
TraceNext == TraceAdd \/ TraceDist \/ TraceStep \/ TraceMeasure \/ (TraceDone /\ UNCHANGED lvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
