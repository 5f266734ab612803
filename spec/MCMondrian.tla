----------------------------- MODULE MCMondrian -----------------------------
(* All forests over small integers: times are integers 0..Life.             *)
EXTENDS Mondrian
CONSTANTS Trees, Dims, MaxX, NL, Life, Pool, MaxTrains, Fresh   \* Fresh: inner counters are kept up to date (C23)
MLt(a, b) == a < b
VARIABLES ts, pts, ret
vars == <<ts, pts, ret>>
Xs == [1..Dims -> 0..MaxX]
Init == ts = [i \in 1..Trees |-> None] /\ pts = [i \in 1..Trees |-> << >>] /\ ret = TRUE
Lowest(S) == CHOOSE a \in S : \A b \in S : a <= b
(* results of giving the point to the subtree nd whose parent's time is pt, *)
(* free being the free ids: pairs <<tree, grew>>                            *)
RECURSIVE Extend(_, _, _, _, _)
Extend(nd, pt, x, lab, free) ==
   LET a == Lowest(free)
       b == Lowest(free \ {a})
       O == OutDims(nd, x)
       cuts == IF Cardinality(free) < 2 THEN {}
               ELSE UNION {UNION {{<<Separate(nd, x, lab, NL, Life, f, v, tau, a, b), TRUE>> : v \in {w \in 0..MaxX : Between(nd, x, f, w)}} : f \in O} : tau \in {q \in pt..Life : q < nd.tau}}
       down == IF nd.leaf THEN {<<CountIn(nd, x, lab), FALSE>>}
               ELSE IF Left(nd, x) THEN {<<[Grown(nd, x) EXCEPT !.l = y[1]], y[2]>> : y \in Extend(nd.l, nd.tau, x, lab, free)}
               ELSE {<<[Grown(nd, x) EXCEPT !.r = y[1]], y[2]>> : y \in Extend(nd.r, nd.tau, x, lab, free)}
   IN cuts \cup down
(* the counters of the inner nodes above the leaf of x, from the bottom up  *)
RECURSIVE Refresh(_, _)
Refresh(nd, x) ==
   IF nd.leaf THEN nd
   ELSE LET m == IF Left(nd, x) THEN [nd EXCEPT !.l = Refresh(@, x)] ELSE [nd EXCEPT !.r = Refresh(@, x)]
        IN [m EXCEPT !.cnt = [i \in 1..NL |-> (IF m.l.cnt[i] > 0 THEN 1 ELSE 0) + (IF m.r.cnt[i] > 0 THEN 1 ELSE 0)]]
Fresh1(nd, x) == IF Fresh THEN Refresh(nd, x) ELSE nd
Free(f) == (0..Pool-1) \ Forest(f)
(* the trees take the point one after the other; triples of <<forest so     *)
(* far, accepted, refused>>                                                 *)
RECURSIVE Through(_, _, _, _)
Through(f, i, x, lab) ==
   IF i > Trees THEN {f}
   ELSE IF IsNone(f[i])
        THEN IF Free(f) = {} THEN Through(f, i + 1, x, lab)
             ELSE Through([f EXCEPT ![i] = NewLeaf(Lowest(Free(f)), x, lab, NL, Life)], i + 1, x, lab)
        ELSE UNION {Through([f EXCEPT ![i] = Fresh1(y[1], x)], i + 1, x, lab) : y \in Extend(f[i], 0, x, lab, Free(f))}
Trained == Len(pts[1]) < MaxTrains
Train == /\ Trained
         /\ \E x \in Xs, lab \in 1..NL : \E f \in Through(ts, 1, x, lab) :
               /\ ts' = f
               /\ pts' = [i \in 1..Trees |-> IF IsNone(f[i]) THEN pts[i] ELSE Append(pts[i], <<x, lab>>)]
               /\ ret' = (\A i \in 1..Trees : ~IsNone(f[i]))
Spec == Init /\ [][Train]_vars
(* C19 *)
WellFormed == \A i \in 1..Trees : ~IsNone(ts[i]) => Accounts(ts[i], pts[i], Life)
(* C23 *)
UpToDate == Fresh => \A i \in 1..Trees : IsNone(ts[i]) \/ Tabled(ts[i])
(* C20 *)
Pooled == Private(ts) /\ Used(ts) <= Pool /\ Forest(ts) \subseteq 0..Pool-1
OddSizes == \A i \in 1..Trees : IsNone(ts[i]) \/ Size(ts[i]) % 2 = 1
Kept == [][\A i \in 1..Trees : IsNone(ts[i]) \/ SameNodes(ts[i], ts'[i]) \/ Grew(ts[i], ts'[i], pts'[i][Len(pts'[i])][1])]_vars
Told == [][ret' = (\A i \in 1..Trees : ~IsNone(ts[i]) \/ Used(ts) < Pool)  \/ Trees > 1]_vars
=============================================================================
