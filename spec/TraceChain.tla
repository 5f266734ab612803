----------------------------- MODULE TraceChain -----------------------------
EXTENDS Chain, TraceBase
vars == <<k, ts, chain, cand, tid, l>>
TraceInit == TraceStart /\ InitWith(T.cfg.k)
(* Ev.chains: for every slot the elements that obsolete(t), for increasing  *)
(* t, brings to the head, found by running the same history again           *)
TraceAdd == /\ Is("add") /\ Ev.e = N + 1
            /\ LET rs == {i \in Slots : Ev.heads[i] = Ev.e}
                   push == {i \in Slots : Ev.chains[i] = Append(chain[i], Ev.e)} \ rs
               IN /\ Cardinality(rs) <= 1
                  /\ Add(Ev.t, IF rs = {} THEN 0 ELSE CHOOSE r \in rs : TRUE, push)
            /\ chain' = Ev.chains
            /\ \A i \in Slots : Ev.heads[i] = Head0(chain'[i])
TraceObsolete == /\ Is("obsolete") /\ Obsolete(Ev.t)
                 /\ chain' = Ev.chains
                 /\ \A i \in Slots : Ev.heads[i] = Head0(chain'[i])
TraceMany == /\ Is("many") /\ More(Ev.n, Ev.chains, Ev.cut, Ev.upto)
             /\ \A i \in Slots : Ev.heads[i] = Head0(chain'[i])
TraceNext == TraceMany \/ TraceAdd \/ TraceObsolete \/ (TraceDone /\ UNCHANGED hvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
