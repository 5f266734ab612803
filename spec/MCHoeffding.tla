---------------------------- MODULE MCHoeffding ----------------------------
EXTENDS Hoeffding
CONSTANTS MaxTrains, Values, MaxSplits
VARIABLES tree, n, log        \* log: the points of every leaf since it is one, by position of the leaf
vars == <<tree, n, log>>
c == [nf |-> 1, nl |-> 2, fs |-> <<3>>, delta |-> DRat(9, 10), room |-> MaxSplits]
StartLimits == << <<DRat(1, 2), DRat(3, 2)>> >>
Init == /\ tree = [Root(c) EXCEPT !.lim = StartLimits]
        /\ n = 0 /\ log = << << >> >>
Points == {<<DInt(v)>> : v \in Values}
LeafNo(t, x) == LET RECURSIVE F(_)
                    F(u) == IF u.leaf THEN 1 ELSE IF GoesLeft(u, x) THEN F(u.l) ELSE Len(Leaves(u.l)) + F(u.r)
                IN F(t)
Train(x, lab, split) ==
   LET m == Learn(c, LeafOf(tree, x), x, lab)
       k == LeafNo(tree, x)
       C == {p \in AllLimits(c) : MaySplit(c, m, p)}
   IN /\ IF ~split
         THEN /\ (C = {} \/ Splits(tree) >= MaxSplits \/ ~\E p \in C : SureSplit(c, m, p))
              /\ tree' = WithLeaf(tree, x, m)
              /\ log' = [log EXCEPT ![k] = Append(@, <<x, lab>>)]
         ELSE /\ Splits(tree) < MaxSplits
              /\ \E p \in C : LET v == m.lim[p[1]][p[2]] IN
                    /\ tree' = WithLeaf(tree, x, SplitAndLearn(c, m, p[1], v, x, lab))
                    /\ log' = SubSeq(log, 1, k - 1)
                              \o (IF DLe(x[p[1]], v) THEN << <<<<x, lab>>>>, << >> >> ELSE << << >>, <<<<x, lab>>>> >>)
                              \o SubSeq(log, k + 1, Len(log))
      /\ n' = n + 1
Count1 == n < MaxTrains /\ \E x \in Points, lab \in Labs(c) : Train(x, lab, FALSE)
Split1 == n < MaxTrains /\ \E x \in Points, lab \in Labs(c) : Train(x, lab, TRUE)
Spec == Init /\ [][Count1 \/ Split1]_vars
Occ(s, lab) == Cardinality({i \in 1..Len(s) : s[i][2] = lab})
(* C14: the counters of a leaf are those of the points trained there        *)
Counted == /\ Len(log) = Len(Leaves(tree))
           /\ \A k \in 1..Len(log) : LET m == Leaves(tree)[k] IN
                 /\ m.n = Len(log[k])
                 /\ \A lab \in Labs(c) : m.cnt[lab] = Occ(log[k], lab)
                 /\ \A i \in 1..Len(log[k]) : LeafNo(tree, log[k][i][1]) = k
                 /\ \A f \in Feats(c), lab \in Labs(c) : BinSum(m.bins[f], lab, 1, c.fs[f]) = m.cnt[lab]
(* C15: gains are between 0 and the entropy, there is at most one best      *)
(* limit to split on, limits increase inside the box                        *)
Sane == \A k \in 1..Len(Leaves(tree)) : LET m == Leaves(tree)[k] IN
           /\ \A p \in AllLimits(c) : DLePoss(Zero, Gain(c, m, p[1], p[2])) /\ DLePoss(Gain(c, m, p[1], p[2]), Entropy(m.cnt))
           /\ m.n > 0 => Cardinality({p \in AllLimits(c) : MaySplit(c, m, p)}) <= 1
           /\ Splits(tree) > 0 => \A f \in Feats(c) : /\ DLe(m.lo[f], m.lim[f][1]) /\ DLe(m.lim[f][1], m.lim[f][2]) /\ DLe(m.lim[f][2], m.hi[f])
(* many points at once is the same as one after the other                   *)
ManySame == \A x \in Points, lab \in Labs(c) :
   LET m == LeafOf(tree, x)  a == Count(c, Count(c, m, x, lab), x, lab)
   IN /\ a = CountMany(c, m, x, lab, 2)
      /\ Pure(c, m, lab) => LET b == Learn(c, Learn(c, m, x, lab), x, lab)
                            IN [b EXCEPT !.isum = a.isum] = a /\ \A f \in Feats(c) : \A j \in Limits(c, f) : DEq(b.isum[f][j], m.isum[f][j])
=============================================================================
