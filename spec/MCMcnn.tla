------------------------------- MODULE MCMcnn -------------------------------
EXTENDS Mcnn, Rat
CONSTANTS Max, Err, Clean, Points, Labels, MaxTrains, Perf
VARIABLES cs, now, ok, first
vars == <<cs, now, ok, first>>
c == [nf |-> 1, max |-> Max, err |-> Err, clean |-> Clean, perf |-> R(Perf), none |-> -1, int |-> FALSE]
MInt(i) == R(i)
MId(x) == x
MExact(x) == TRUE
RECURSIVE ISqrt(_, _)
ISqrt(v, k) == IF RLe(R((k + 1) * (k + 1)), v) THEN ISqrt(v, k + 1) ELSE k
MSds(v) == {R(ISqrt(v, 0))}
Init == cs = << >> /\ now = -1 /\ ok = TRUE /\ first = << >>
Full == Len(cs) = Max
DoTrain == /\ now < MaxTrains - 1 /\ now' = now + 1
           /\ \E p \in Points, lab \in Labels : \E y \in Train(c, cs, <<R(p)>>, lab, now') :
                 ok' = y[1] /\ cs' = y[2] /\ first' = IF first = << >> THEN <<lab>> ELSE first
Spec == Init /\ [][DoTrain]_vars
(* C13 *)
Bounded == Len(cs) <= Max /\ (now >= 0 => Len(cs) > 0)
RefusedOnlyFull == [][ok' = FALSE => Clean = 1 /\ Len(cs') = Max]_vars
(* C12 *)
Labelled == \A i \in 1..Len(cs) : cs[i].label \in Labels /\ cs[i].n > 0 /\ cs[i].t0 <= now /\ RLe(R(0), Variance(cs[i], 1))
Budget == Clean \in {0, 2} => \A i \in 1..Len(cs) : cs[i].err > 0
Timely == \A i \in 1..Len(cs) : RLe(R(0), cs[i].tsum) /\ RLe(cs[i].tsum, R(cs[i].n * now))
(* Bulk says what training the points one by one gives                      *)
BulkSame == \A p \in Points, lab \in Labels, n \in 1..3 :
   BulkOk(c, cs, <<R(p)>>, lab) => TrainMany(c, {cs}, <<R(p)>>, lab, n, now) = {Bulk(c, cs, <<R(p)>>, n, now)}
=============================================================================
