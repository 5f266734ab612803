-------------------------------- MODULE Mcnn --------------------------------
(* The micro-cluster nearest-neighbour classifier (src/mc_nn.hpp).          *)
(* A micro-cluster: [s |-> sums of the features, q |-> sums of their        *)
(* squares, n |-> number of points, tsum |-> sum of their times, t0 |-> its *)
(* initial time, label, err |-> error budget].  clusters is a sequence with *)
(* at most cfg.max members; free slots are not represented.                 *)
(* Numbers are abstract; Less is "certainly less", Nums are doubles in the  *)
(* traces and rationals in the model; NFloor gives an integer.  Where values (almost) tie, several   *)
(* clusters are candidates: Train gives the set of possible results.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NLt(_, _), NInt(_), Sds(_), Trunc(_), Exact(_), NFloor(_)
(* Sds(v): the possible square roots of v; Trunc(x): x as  *)
(* the feature type stores it; Exact(x): the arithmetic on x is exact       *)
Idx(cs) == 1..Len(cs)
Feats(c) == 1..c.nf
Zero == NInt(0)
Times(a, k) == NMul(a, NInt(k))
Initial(c, x, lab, t) == [s |-> x, q |-> [i \in Feats(c) |-> NMul(x[i], x[i])], n |-> 1,
                          tsum |-> NInt(t), t0 |-> t, label |-> lab, err |-> c.err]
Absorb(c, m, x, t) == [m EXCEPT !.s = [i \in Feats(c) |-> NAdd(m.s[i], x[i])],
                                !.q = [i \in Feats(c) |-> NAdd(m.q[i], NMul(x[i], x[i]))],
                                !.n = @ + 1, !.tsum = NAdd(@, NInt(t))]
Centroid(c, m) == [i \in Feats(c) |-> Trunc(NDiv(m.s[i], NInt(m.n)))]
RECURSIVE SqDist(_, _, _)
SqDist(x, y, i) == IF i = 0 THEN Zero ELSE NAdd(SqDist(x, y, i - 1), NMul(NSub(x[i], y[i]), NSub(x[i], y[i])))
Dist(c, m, x) == SqDist(x, Centroid(c, m), c.nf)
(* the members of S that may be the nearest ones to x                       *)
Nearest(c, cs, S, x) == LET d == [i \in S |-> Dist(c, cs[i], x)]
                        IN {i \in S : \A j \in S : ~NLt(d[j], d[i])}
Variance(m, i) == LET a == NDiv(m.q[i], NInt(m.n))
                      b == NDiv(m.s[i], NInt(m.n))
                  IN NSub(a, NMul(b, b))
Widest(c, m) == LET v == [i \in Feats(c) |-> Variance(m, i)]
                IN {i \in Feats(c) : \A j \in Feats(c) : ~NLt(v[i], v[j])}
Tri(t) == NDiv(NMul(NInt(t), NInt(t + 1)), NInt(2))
(* share of the points of the stream since the cluster exists that it got   *)
Participation(m, now) == IF now = m.t0 THEN NInt(1000000) ELSE NDiv(NMul(NInt(100), m.tsum), NSub(Tri(now), Tri(m.t0)))
Lowest(cs, now) == LET p == [i \in Idx(cs) |-> Participation(cs[i], now)]
                   IN {i \in Idx(cs) : \A j \in Idx(cs) : ~NLt(p[j], p[i])}
MayReplace(c) == c.clean \in {0, 2}
(* a new cluster takes a free slot or replaces one with the lowest          *)
(* participation                                                            *)
Places(c, cs, now) == IF Len(cs) < c.max THEN {Len(cs) + 1} ELSE IF MayReplace(c) THEN Lowest(cs, now) ELSE {}
PutAt(cs, i, m) == IF i > Len(cs) THEN Append(cs, m) ELSE [cs EXCEPT ![i] = m]
(* cluster i is split in two at its centroid -/+ one standard deviation     *)
(* along its widest feature; without a place for a new cluster nothing      *)
(* happens                                                                  *)
Halves(c, m) == {LET old == NFloor(NDiv(m.tsum, NInt(m.n)))
                     At(x, sg) == [j \in Feats(c) |-> Trunc(IF j # w THEN NDiv(m.s[j], NInt(m.n))
                                                            ELSE IF sg > 0 THEN NAdd(Trunc(NDiv(m.s[j], NInt(m.n))), sd)
                                                            ELSE NSub(Trunc(NDiv(m.s[j], NInt(m.n))), sd))]
                     I(x) == Initial(c, x, m.label, old)
                 IN <<I(At(m, -1)), I(At(m, 1))>> : w \in Widest(c, m), sd \in UNION {Sds(Variance(m, u)) : u \in Widest(c, m)}}
SplitOf(c, cs, i, now) ==
   IF Places(c, cs, now) = {} THEN {cs}
   ELSE {PutAt(PutAt(cs, p, h[1]), i, h[2]) : p \in Places(c, cs, now), h \in Halves(c, cs[i])}
SplitIfUsedUp(c, cs, i, now) == IF cs[i].err <= 0 THEN SplitOf(c, cs, i, now) ELSE {cs}
Low(c, m, now) == m.n > 1 /\ NLt(Participation(m, now), c.perf)
MaybeLow(c, m, now) == m.n > 1 /\ ~NLt(c.perf, Participation(m, now))
RECURSIVE Keep(_, _, _)
Keep(cs, S, i) == IF i > Len(cs) THEN << >> ELSE (IF i \in S THEN <<cs[i]>> ELSE << >>) \o Keep(cs, S, i + 1)
Cleaned(c, cs, now) ==
   IF c.clean = 0 THEN {cs}
   ELSE LET must == {i \in Idx(cs) : Low(c, cs[i], now)}
            may == {i \in Idx(cs) : MaybeLow(c, cs[i], now)} \ must
        IN {Keep(cs, (Idx(cs) \ must) \ x, 1) : x \in SUBSET may}
Charge(cs, i) == [cs EXCEPT ![i].err = @ - 1]
Reward(cs, i) == [cs EXCEPT ![i].err = @ + 1]
(* train at the time now (the previous time being now-1): set of            *)
(* <<result, clusters>>                                                     *)
TrainOn(c, cs, x, lab, now) ==
   LET Near == Nearest(c, cs, Idx(cs), x)
       (* when all of them are exactly at the same distance, the class decides *)
       Tie == /\ \E i \in Near : cs[i].label = lab
              /\ \A i \in Near : Dist(c, cs[i], x) = Dist(c, cs[CHOOSE k \in Near : TRUE], x)
              /\ \A f \in Feats(c) : Exact(x[f]) /\ \A i \in Near : Exact(Centroid(c, cs[i])[f])
       All == IF Tie THEN {i \in Near : cs[i].label = lab} ELSE Near
       Same == {i \in Idx(cs) : cs[i].label = lab}
       Mine == Nearest(c, cs, Same, x)
   IN IF Same = {}
      THEN IF Places(c, cs, now) = {} THEN { <<FALSE, cs>> }
           ELSE { <<TRUE, PutAt(cs, p, Initial(c, x, lab, now))>> : p \in Places(c, cs, now) }
      ELSE UNION {
         IF cs[i].label = lab
         THEN { <<TRUE, Reward([cs EXCEPT ![i] = Absorb(c, @, x, now)], i)>> }
         ELSE UNION {
            LET charged == Charge(Charge([cs EXCEPT ![j] = Absorb(c, @, x, now)], j), i)
            IN { <<TRUE, b>> : b \in UNION {SplitIfUsedUp(c, a, i, now) : a \in SplitIfUsedUp(c, charged, j, now)} }
            : j \in Mine }
         : i \in All }
Train(c, cs, x, lab, now) == UNION {TrainOn(c, k, x, lab, now) : k \in Cleaned(c, cs, now - 1)}
(* n points x in a row, the last time before them being now: without        *)
(* cleaning, when one cluster is the nearest one and of the same label, it  *)
(* takes all of them                                                        *)
BulkOk(c, cs, x, lab) ==
   /\ c.clean = 0
   /\ \E i \in Idx(cs) : /\ Nearest(c, cs, Idx(cs), x) = {i} /\ cs[i].label = lab
                         /\ c.int => Centroid(c, cs[i]) = x
                         /\ \A f \in Feats(c) : Exact(x[f])
Bulk(c, cs, x, n, now) ==
   LET i == CHOOSE k \in Nearest(c, cs, Idx(cs), x) : TRUE
   IN [cs EXCEPT ![i] = [@ EXCEPT !.s = [f \in Feats(c) |-> NAdd(@[f], Times(x[f], n))],
                                  !.q = [f \in Feats(c) |-> NAdd(@[f], Times(NMul(x[f], x[f]), n))],
                                  !.n = @ + n, !.err = @ + n,
                                  !.tsum = NAdd(@, NSub(Tri(now + n), Tri(now)))]]
RECURSIVE TrainMany(_, _, _, _, _, _)
TrainMany(c, S, x, lab, n, now) ==         \* ends early when there are too many cases
   IF Cardinality(S) > 12 \/ n = 0 THEN S ELSE TrainMany(c, UNION {{y[2] : y \in Train(c, cs, x, lab, now + 1)} : cs \in S}, x, lab, n - 1, now + 1)
Predictions(c, cs, x) == IF cs = << >> THEN {c.none} ELSE {cs[i].label : i \in Nearest(c, cs, Idx(cs), x)}
=============================================================================
