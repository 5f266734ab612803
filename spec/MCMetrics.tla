----------------------------- MODULE MCMetrics -----------------------------
EXTENDS Metrics, Rat, FiniteSets
CONSTANTS MaxOps, NLab
VARIABLES e, k, all, num, n, hist     \* two instances of each metric; hist: updates seen by each
vars == <<e, k, all, num, n, hist>>
MInt(i) == R(i)
I == {1, 2}
Other(i) == 3 - i
Init == /\ e = [i \in I |-> ErrNew] /\ k = [i \in I |-> KapNew(NLab)]
        /\ all = 2 /\ num = [i \in I |-> i] /\ n = 0 /\ hist = [i \in I |-> << >>]
Update == n < MaxOps /\ n' = n + 1 /\ \E i \in I, t \in 1..NLab, p \in 1..NLab :
             /\ e' = [e EXCEPT ![i] = ErrUpdate(@, t, p)] /\ k' = [k EXCEPT ![i] = KapUpdate(@, t, p)]
             /\ hist' = [hist EXCEPT ![i] = Append(@, <<t, p>>)] /\ UNCHANGED <<all, num>>
Increase == n < MaxOps /\ n' = n + 1 /\ \E i \in I, c \in 1..2 :
             /\ e' = [e EXCEPT ![i] = ErrIncrease(@, c)] /\ k' = [k EXCEPT ![i] = KapIncrease(@, c)]
             /\ hist' = [hist EXCEPT ![i] = @ \o [j \in 1..c |-> <<1, 2>>]] /\ UNCHANGED <<all, num>>
Reset == n < MaxOps /\ n' = n + 1 /\ \E i \in I :
             /\ e' = [e EXCEPT ![i] = ErrNew] /\ k' = [k EXCEPT ![i] = KapNew(NLab)] /\ hist' = [hist EXCEPT ![i] = << >>]
             /\ all' = all + 1 /\ num' = [num EXCEPT ![i] = all + 1]
Assign == n < MaxOps /\ n' = n + 1 /\ \E i \in I :
             /\ e' = [e EXCEPT ![i] = e[Other(i)]] /\ k' = [k EXCEPT ![i] = k[Other(i)]] /\ hist' = [hist EXCEPT ![i] = hist[Other(i)]]
             /\ num' = [num EXCEPT ![i] = num[Other(i)]] /\ UNCHANGED all
Spec == Init /\ [][Update \/ Increase \/ Reset \/ Assign]_vars
Occ(h, P(_)) == Len(SelectSeq(h, P))
(* C26: the counts are those of the update history since the last reset     *)
History == \A i \in I :
             /\ e[i].count = Len(hist[i]) /\ e[i].errors = Occ(hist[i], LAMBDA u : u[1] # u[2])
             /\ \A t, p \in 1..NLab : k[i].m[t][p] = Occ(hist[i], LAMBDA u : u = <<t, p>>)
Defined(i) == e[i].count > 0 /\ Pe(k[i]) # R(1)
Ranges == \A i \in I : e[i].count > 0 =>
             /\ LET s == ErrScore(e[i], FALSE, FALSE, 1)
                IN RLe(R(0), s) /\ RLe(s, R(1)) /\ RAdd(s, ErrScore(e[i], FALSE, TRUE, 1)) = R(1)
             /\ KapTotal(k[i]) = R(e[i].count)
             /\ Defined(i) => /\ RLe(R(-1), Kappa(k[i])) /\ RLe(Kappa(k[i]), R(1))
                              /\ (Kappa(k[i]) = R(1) <=> e[i].errors = 0)
                              /\ RAdd(KapScore(k[i], FALSE, FALSE, 1), KapScore(k[i], FALSE, TRUE, 1)) = R(1)
                              /\ (Po(k[i]) = Pe(k[i]) <=> Kappa(k[i]) = R(0))
(* C27: numbers never exceed the counter, and at most the last construction *)
(* or reset (and its copies) has the latest one                             *)
Numbers == \A i \in I : num[i] \in 1..all
Latest == [][all' # all => Cardinality({i \in I : num'[i] = all'}) = 1]_vars
=============================================================================
