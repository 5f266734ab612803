--------------------------- MODULE TraceHoeffding ---------------------------
(* Histories of a HoeffdingTree.  After every training point the history    *)
(* holds the preorder of the tree and predictions of probe points.          *)
EXTENDS Hoeffding, TraceBase
CONSTANT Level                 \* 14 or 15: the property that is checked
VARIABLES cfg, tree
mvars == <<cfg, tree>>
vars == <<cfg, tree, tid, l>>
TraceInit == TraceStart /\ cfg = T.cfg /\ tree = Root(T.cfg)
SameShape(a, b) == a = b
(* what a leaf says of a point                                              *)
ProbeOk(t, p) == LET m == LeafOf(t, p[1])
                 IN IF m.n = 0 THEN p[2] = 1
                    ELSE /\ p[2] = Majority(cfg, m)
                         /\ \A i \in Labs(cfg) : DClose(p[3][i], Score(m, i))
ProbesOk(t) == Level = 14 => \A i \in 1..Len(Ev.probes) : ProbeOk(t, Ev.probes[i])
Update(m, x, lab) == IF Level = 15 THEN Learn(cfg, m, x, lab) ELSE Count(cfg, m, x, lab)
Splittable(m, p) == Level = 15 => MaySplit(cfg, m, p)
NewLeaf(m, f, v, x, lab) == LET s == SplitAt(cfg, m, f, v) IN WithLeaf(s, x, Update(LeafOf(s, x), x, lab))
Train == /\ Is("train") /\ UNCHANGED cfg
         /\ LET m == TLCEval(Update(LeafOf(tree, Ev.x), Ev.x, Ev.label))
                old == Shape(tree)
                pos == Pos(tree, Ev.x)
            IN \/ /\ Ev.tree = old
                  /\ tree' = WithLeaf(tree, Ev.x, m)
                  /\ Level = 15 => IF Ev.r THEN \A p \in Top(cfg, m) : ~SureSplit(cfg, m, p)
                                   ELSE Splits(tree) >= cfg.room /\ \E p \in Top(cfg, m) : MaySplit(cfg, m, p)
               \/ /\ Len(Ev.tree) = Len(old) + 2
                  /\ Len(Ev.tree[pos]) = 2
                  /\ LET f == Ev.tree[pos][1]  v == Ev.tree[pos][2]
                     IN /\ f \in Feats(cfg)
                        /\ Level = 15 => Ev.r /\ \E p \in AllLimits(cfg) : p[1] = f /\ DClose(v, m.lim[f][p[2]]) /\ MaySplit(cfg, m, p)
                        /\ tree' = WithLeaf(tree, Ev.x, NewLeaf(m, f, v, Ev.x, Ev.label))
                  /\ Ev.tree = Shape(tree')
         /\ ProbesOk(tree')
(* Ev.n times the same point, with true as the result and no split           *)
Many == /\ Is("many") /\ UNCHANGED cfg
        /\ Ev.tree = Shape(tree)
        /\ LET m == LeafOf(tree, Ev.x)
               s == IF Level = 15 THEN LearnMany(cfg, m, Ev.x, Ev.label, Ev.n) ELSE {CountMany(cfg, m, Ev.x, Ev.label, Ev.n)}
           IN \E one \in s : tree' = WithLeaf(tree, Ev.x, one)
(* the node interface: the leaf learns and proposes a split                 *)
NTrain == /\ Is("ntrain") /\ tree.leaf /\ UNCHANGED cfg
          /\ tree' = Update(tree, Ev.x, Ev.label)
          /\ Level = 15 => IF Ev.f = 0 THEN \A p \in Top(cfg, tree') : ~SureSplit(cfg, tree', p)
                           ELSE \E p \in AllLimits(cfg) : p[1] = Ev.f /\ DClose(Ev.v, tree'.lim[p[1]][p[2]]) /\ MaySplit(cfg, tree', p)
          /\ ProbesOk(tree')
Gains == /\ Is("gains") /\ tree.leaf /\ UNCHANGED mvars
         /\ Level = 15 => \A f \in Feats(cfg) : \A j \in Limits(cfg, f) : DClose(Ev.g[f][j], Gain(cfg, tree, f, j))
SetLimits == /\ Is("limits") /\ tree.leaf /\ UNCHANGED cfg
             /\ tree' = [tree EXCEPT !.lim = Ev.lim]
Look == Is("look") /\ UNCHANGED mvars /\ Ev.tree = Shape(tree) /\ ProbesOk(tree)
TraceNext == Train \/ Many \/ NTrain \/ Gains \/ SetLimits \/ Look \/ (TraceDone /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
