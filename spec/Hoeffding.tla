----------------------------- MODULE Hoeffding -----------------------------
(* The Hoeffding tree (src/hoeffding_tree.hpp).                             *)
(* An instance c: [nf, nl |-> numbers of features and labels, fs |-> bins   *)
(* of every feature, delta, room |-> number of splits that certainly fit].  *)
(* A leaf: [leaf |-> TRUE, n |-> points counted, cnt |-> per label, bins |->*)
(* per feature, bin and label, lim |-> limits of the bins of every feature, *)
(* isum |-> sum over time of the information gain of every limit, lo, hi |->*)
(* box].  An inner node: [leaf |-> FALSE, f, v |-> split, l, r |-> nodes].  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Dbl
Feats(c) == 1..c.nf
Labs(c) == 1..c.nl
Limits(c, f) == 1..(c.fs[f] - 1)
Bins(c, f) == 1..c.fs[f]
Zero == DInt(0)
One == DInt(1)
PosInf == DDiv(One, Zero)
NegInf == DNeg(PosInf)
EmptyLeaf(c, lim, lo, hi) ==
   [leaf |-> TRUE, n |-> 0, cnt |-> [i \in Labs(c) |-> 0],
    bins |-> [f \in Feats(c) |-> [b \in Bins(c, f) |-> [i \in Labs(c) |-> 0]]],
    lim |-> lim, isum |-> [f \in Feats(c) |-> [j \in Limits(c, f) |-> Zero]], lo |-> lo, hi |-> hi]
Root(c) == EmptyLeaf(c, [f \in Feats(c) |-> [j \in Limits(c, f) |-> Zero]],
                     [f \in Feats(c) |-> PosInf], [f \in Feats(c) |-> NegInf])
GoesLeft(nd, x) == DLe(x[nd.f], nd.v)
RECURSIVE LeafOf(_, _)
LeafOf(t, x) == IF t.leaf THEN t ELSE LeafOf(IF GoesLeft(t, x) THEN t.l ELSE t.r, x)
(* t with the leaf of x replaced                                            *)
RECURSIVE WithLeaf(_, _, _)
WithLeaf(t, x, new) == IF t.leaf THEN new
                       ELSE IF GoesLeft(t, x) THEN [t EXCEPT !.l = WithLeaf(t.l, x, new)]
                       ELSE [t EXCEPT !.r = WithLeaf(t.r, x, new)]
(* preorder list of the nodes, <<0>> for a leaf, <<feature, value>> if not  *)
RECURSIVE Shape(_)
Shape(t) == IF t.leaf THEN << <<0>> >> ELSE << <<t.f, t.v>> >> \o Shape(t.l) \o Shape(t.r)
RECURSIVE Leaves(_)
Leaves(t) == IF t.leaf THEN <<t>> ELSE Leaves(t.l) \o Leaves(t.r)
(* position of the leaf of x in the preorder                                *)
RECURSIVE Pos(_, _)
Pos(t, x) == IF t.leaf THEN 1 ELSE IF GoesLeft(t, x) THEN 1 + Pos(t.l, x) ELSE 1 + Len(Shape(t.l)) + Pos(t.r, x)
Splits(t) == Len(Leaves(t)) - 1

(* ---- counting (C14) ---------------------------------------------------- *)
BinOf(c, m, f, x) == LET A == {j \in Limits(c, f) : DLt(x[f], m.lim[f][j])}
                     IN IF A = {} THEN c.fs[f] ELSE CHOOSE j \in A : \A k \in A : j <= k
Count(c, m, x, lab) ==
   [m EXCEPT !.n = @ + 1, !.cnt[lab] = @ + 1,
             !.bins = [f \in Feats(c) |-> [@[f] EXCEPT ![BinOf(c, m, f, x)][lab] = @ + 1]],
             !.lo = [f \in Feats(c) |-> DMin(@[f], x[f])],
             !.hi = [f \in Feats(c) |-> DMax(@[f], x[f])]]
(* k points of the same kind in a row                                       *)
CountMany(c, m, x, lab, k) ==
   [m EXCEPT !.n = @ + k, !.cnt[lab] = @ + k,
             !.bins = [f \in Feats(c) |-> [@[f] EXCEPT ![BinOf(c, m, f, x)][lab] = @ + k]],
             !.lo = [f \in Feats(c) |-> DMin(@[f], x[f])],
             !.hi = [f \in Feats(c) |-> DMax(@[f], x[f])]]
Pure(c, m, lab) == \A i \in Labs(c) : i # lab => m.cnt[i] = 0
Majority(c, m) == CHOOSE i \in Labs(c) : /\ \A j \in Labs(c) : m.cnt[j] <= m.cnt[i]
                                         /\ \A j \in 1..i-1 : m.cnt[j] < m.cnt[i]
Score(m, i) == DRat(m.cnt[i], m.n)

(* ---- information gain and Hoeffding criterion (C15) -------------------- *)
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
RECURSIVE EntTo(_, _, _)
EntTo(s, n, i) == IF i = 0 THEN Zero
                  ELSE LET p == DRat(s[i], n)
                       IN IF s[i] = 0 THEN EntTo(s, n, i - 1) ELSE DSub(EntTo(s, n, i - 1), DMul(p, DLog2(p)))
Entropy(s) == LET n == SumTo(s, Len(s)) IN IF n = 0 THEN Zero ELSE EntTo(s, n, Len(s))
RECURSIVE BinSum(_, _, _, _)
BinSum(b, lab, i, j) == IF i > j THEN 0 ELSE b[i][lab] + BinSum(b, lab, i + 1, j)
Gain(c, m, f, j) ==
   LET L == [i \in Labs(c) |-> BinSum(m.bins[f], i, 1, j)]
       G == [i \in Labs(c) |-> BinSum(m.bins[f], i, j + 1, c.fs[f])]
   IN IF m.n = 0 THEN Zero
      ELSE DSub(Entropy(m.cnt), DAdd(DMul(DRat(SumTo(L, c.nl), m.n), Entropy(L)), DMul(DRat(SumTo(G, c.nl), m.n), Entropy(G))))
Accumulate(c, m) == [m EXCEPT !.isum = [f \in Feats(c) |-> [j \in Limits(c, f) |-> DAdd(@[f][j], Gain(c, m, f, j))]]]
Learn(c, m, x, lab) == Accumulate(c, Count(c, m, x, lab))
AllLimits(c) == UNION {{<<f, j>> : j \in Limits(c, f)} : f \in Feats(c)}
Mean(m, p) == DDiv(m.isum[p[1]][p[2]], DInt(m.n))
Bound(c, m) == DMul(DInt(2), DDiv(DLog(DDiv(One, c.delta)), DInt(m.n)))
Means(c, m) == TLCEval([q \in AllLimits(c) |-> Mean(m, q)])
(* the limit with the greatest gain, if there is a single one               *)
Top(c, m) == LET g == Means(c, m)
                 A == {p \in AllLimits(c) : \A q \in AllLimits(c) : DLe(g[q], g[p])}
             IN IF Cardinality(A) = 1 THEN A ELSE {}
(* gap between the gain of p and the best other one                         *)
Gap(c, m, p) ==
   LET O == AllLimits(c) \ {p}
       g == Means(c, m)
       second == IF O = {} THEN Zero ELSE g[CHOOSE q \in O : \A r \in O : DLe(g[r], g[q])]
   IN DSub(g[p], second)
Sq(a) == DMul(a, a)
SureSplit(c, m, p) == LET d == Gap(c, m, p) IN DLt(Zero, d) /\ DLtSure(Bound(c, m), Sq(d)) /\ DLtSure(Zero, Mean(m, p))
(* the leaf after k points x in a row, no one if it has to split in between; *)
(* a leaf with a single label gains nothing from any split                   *)
RECURSIVE LearnMany(_, _, _, _, _)
LearnMany(c, m, x, lab, k) ==
   IF k = 0 THEN {m}
   ELSE IF Pure(c, m, lab) THEN {CountMany(c, m, x, lab, k)}
   ELSE UNION {IF \E p \in Top(c, m2) : SureSplit(c, m2, p) THEN {} ELSE LearnMany(c, m2, x, lab, k - 1)
               : m2 \in {TLCEval(Learn(c, m, x, lab))}}
MaySplit(c, m, p) == LET d == Gap(c, m, p) IN DLt(Zero, d) /\ DLePoss(Bound(c, m), Sq(d)) /\ DLt(Zero, Mean(m, p))
Spread(c, lo, hi) == [f \in Feats(c) |-> [j \in Limits(c, f) |->
                        DAdd(lo[f], DMul(DInt(j), DDiv(DSub(hi[f], lo[f]), DInt(c.fs[f]))))]]
SplitAt(c, m, f, v) ==
   LET hiL == [m.hi EXCEPT ![f] = v]
       loR == [m.lo EXCEPT ![f] = v]
   IN [leaf |-> FALSE, f |-> f, v |-> v,
       l |-> EmptyLeaf(c, Spread(c, m.lo, hiL), m.lo, hiL), r |-> EmptyLeaf(c, Spread(c, loR, m.hi), loR, m.hi)]
(* the point that made the leaf split is the first one of its child         *)
SplitAndLearn(c, m, f, v, x, lab) ==
   LET s == SplitAt(c, m, f, v) IN WithLeaf(s, x, Learn(c, LeafOf(s, x), x, lab))
=============================================================================
