---------------------------- MODULE TraceMondrian ----------------------------
(* Histories of a Mondrian forest.  Every event holds the trees as they are *)
(* after it.  cap: size of the pool of nodes, or -1 (MondrianForestUnbound).*)
EXTENDS Mondrian, Dbl, TraceBase
CONSTANT Level                 \* 19..23: the property that is checked
VARIABLES pts, at              \* the points of every tree; the event with the latest trees
mvars == <<pts, at>>
vars == <<pts, at, tid, l>>
C == T.cfg
Zero == DInt(0)
One == DInt(1)
TraceInit == TraceStart /\ pts = [i \in 1..T.cfg.trees |-> << >>] /\ at = 0
Old == IF at = 0 THEN [i \in 1..C.trees |-> None] ELSE T.ev[at].trees
Near(a, b) == DNear(a, b, C.tol)
Sure(a, b) == DLt(a, b) /\ ~Near(a, b)
Poss(a, b) == DLt(a, b) \/ Near(a, b)
RECURSIVE LinksOk(_, _)
LinksOk(t, par) == t.par = par /\ (t.leaf \/ (LinksOk(t.l, t.id) /\ LinksOk(t.r, t.id)))
AllLinked(ts) == \A i \in 1..Len(ts) : IsNone(ts[i]) \/ LinksOk(ts[i], -1)
RECURSIVE SameTree(_, _)
SameTree(a, b) == /\ a.leaf = b.leaf /\ a.tau = b.tau /\ a.lo = b.lo /\ a.hi = b.hi
                  /\ IF a.leaf THEN a.cnt = b.cnt ELSE a.f = b.f /\ a.v = b.v /\ SameTree(a.l, b.l) /\ SameTree(a.r, b.r)
Same(ts, us) == /\ Len(ts) = Len(us)
                /\ \A i \in 1..Len(ts) : IsNone(ts[i]) = IsNone(us[i]) /\ (~IsNone(ts[i]) => SameTree(ts[i], us[i]) /\ SameNodes(ts[i], us[i]))
RECURSIVE LeafAt(_, _)
LeafAt(t, x) == IF t.leaf THEN t ELSE LeafAt(IF Left(t, x) THEN t.l ELSE t.r, x)

(* ---- C20 ---------------------------------------------------------------- *)
(* nodes that tree i may take: the trees are trained in order               *)
Room(new, i) == C.cap - (SizeTo(new, i - 1) + Used(Old) - SizeTo(Old, i - 1))
CanGrow(new, i) == C.cap < 0 \/ Room(new, i) >= 2
PoolOk(ts, free) == /\ Private(ts) /\ Forest(ts) \subseteq 0..C.cap-1
                    /\ free = C.cap - Used(ts)
                    /\ C.obj <= C.max + 4 * C.trees + 40 /\ C.obj * (C.cap + 1) >= C.max * C.cap

(* ---- C21 ---------------------------------------------------------------- *)
OutBy(nd, x, f) == DAdd(DMax(DSub(nd.lo[f], x[f]), Zero), DMax(DSub(x[f], nd.hi[f]), Zero))
Dists(nd, x) == [f \in 1..C.nf |-> OutBy(nd, x, f)]
Wait(u, s) == DDiv(DNeg(DLog(DSub(One, u))), s)      \* exponential with rate s
SureCut(nd, pt, x, u) == LET s == DSum(Dists(nd, x)) IN DLt(Zero, s) /\ Sure(DAdd(pt, Wait(u, s)), nd.tau)
MayCut(nd, pt, x, u) == LET s == DSum(Dists(nd, x)) IN DLt(Zero, s) /\ Poss(DAdd(pt, Wait(u, s)), nd.tau)
(* u picks feature f, proportionally to the distances d                     *)
MayPick(d, f, u) == LET s == DSum(d)
                        below == IF f = 1 THEN Zero ELSE DDiv(DSum(SubSeq(d, 1, f - 1)), s)
                    IN DLt(Zero, d[f]) /\ Poss(below, u) /\ Poss(u, DAdd(below, DDiv(d[f], s)))
Low(nd, x, f) == IF DLt(nd.hi[f], x[f]) THEN nd.hi[f] ELSE x[f]
High(nd, x, f) == IF DLt(nd.hi[f], x[f]) THEN x[f] ELSE nd.lo[f]
CutOk(a, b, pt, x, lab, e) ==
   /\ ~b.leaf
   /\ LET d == Dists(a, x)
      IN /\ b.f \in OutDims(a, x) /\ Between(a, x, b.f, b.v)
         /\ DLe(pt, b.tau) /\ DLt(b.tau, a.tau)
         /\ e.rnd \/ /\ Near(b.tau, DAdd(pt, Wait(e.u, DSum(d))))
                     /\ MayPick(d, b.f, e.u)
                     /\ Near(b.v, DAdd(Low(a, x, b.f), DMul(e.u, DSub(High(a, x, b.f), Low(a, x, b.f))))) \/ b.v = Low(a, x, b.f)
         /\ b.lo = MinBox(a, x) /\ b.hi = MaxBox(a, x)
         /\ LET s == IF Left(b, x) THEN b.l ELSE b.r
                o == IF Left(b, x) THEN b.r ELSE b.l
            IN /\ SameTree(a, o)
               /\ s.leaf /\ s.lo = x /\ s.hi = x /\ s.tau = C.life
               /\ s.cnt = [i \in 1..C.nl |-> IF i = lab THEN 1 ELSE 0]
RECURSIVE Step(_, _, _, _, _, _, _)
Step(a, b, pt, x, lab, e, room) ==
   \/ /\ room /\ (e.rnd \/ MayCut(a, pt, x, e.u))
      /\ CutOk(a, b, pt, x, lab, e)
   \/ /\ ~(room /\ ~e.rnd /\ SureCut(a, pt, x, e.u))
      /\ a.leaf = b.leaf /\ a.tau = b.tau
      /\ b.lo = MinBox(a, x) /\ b.hi = MaxBox(a, x)
      /\ IF a.leaf THEN b.cnt = [a.cnt EXCEPT ![lab] = @ + 1]
         ELSE /\ a.f = b.f /\ a.v = b.v
              /\ IF Left(a, x) THEN SameTree(a.r, b.r) /\ Step(a.l, b.l, a.tau, x, lab, e, room)
                 ELSE SameTree(a.l, b.l) /\ Step(a.r, b.r, a.tau, x, lab, e, room)
RECURSIVE Wants(_, _, _, _)
Wants(a, pt, x, u) == SureCut(a, pt, x, u) \/ (~a.leaf /\ Wants(IF Left(a, x) THEN a.l ELSE a.r, a.tau, x, u))

(* what the level of the property asks of one training                      *)
TreeOk20(a, b, i, e) ==
   IF IsNone(a) THEN IsNone(b) = (Room(e.trees, i) < 1) /\ (~IsNone(b) => Size(b) = 1)
   ELSE /\ ~IsNone(b)
        /\ IF Size(b) = Size(a)
           THEN /\ SameNodes(a, b)
                /\ LeafAt(b, e.x).cnt = [LeafAt(a, e.x).cnt EXCEPT ![e.label] = @ + 1] /\ Inside(LeafAt(b, e.x), e.x)
                /\ ~(CanGrow(e.trees, i) /\ ~e.rnd /\ Wants(a, Zero, e.x, e.u))
           ELSE Room(e.trees, i) >= 2 /\ Size(b) = Size(a) + 2 /\ Grew(a, b, e.x)
TreeOk21(a, b, i, e) ==
   IF IsNone(a) THEN IsNone(b) \/ (b.leaf /\ b.lo = e.x /\ b.hi = e.x /\ b.tau = C.life /\ b.cnt = [k \in 1..C.nl |-> IF k = e.label THEN 1 ELSE 0])
   ELSE ~IsNone(b) /\ Step(a, b, Zero, e.x, e.label, e, CanGrow(e.trees, i))
Whole(ts, ps) == /\ AllLinked(ts)
                 /\ \A i \in 1..C.trees : IF IsNone(ts[i]) THEN ps[i] = << >> ELSE Accounts(ts[i], ps[i], C.life)
Train == /\ Is("train")
         /\ LET e == Ev
            IN /\ Len(e.trees) = C.trees
               /\ pts' = [i \in 1..C.trees |-> IF IsNone(e.trees[i]) THEN << >> ELSE Append(pts[i], <<e.x, e.label>>)]
               /\ at' = l
               /\ Level = 19 => Whole(e.trees, pts')
               /\ Level = 20 => /\ PoolOk(e.trees, e.free)
                                /\ e.r = (\A i \in 1..C.trees : ~IsNone(e.trees[i]))
                                /\ \A i \in 1..C.trees : TreeOk20(Old[i], e.trees[i], i, e)
               /\ Level = 21 => \A i \in 1..C.trees : TreeOk21(Old[i], e.trees[i], i, e)
               /\ Level = 23 => Whole(e.trees, pts') /\ e.r /\ \A i \in 1..C.trees : ~IsNone(e.trees[i]) /\ Tabled(e.trees[i])

(* ---- C22 ---------------------------------------------------------------- *)
RECURSIVE Has(_, _)
Has(t, lab) == IF t.leaf THEN t.cnt[lab] > 0 ELSE Has(t.l, lab) \/ Has(t.r, lab)
Raw == "raw" \in DOMAIN C /\ C.raw      \* the counters of the inner nodes are used as they are
Cnt(t) == IF Raw THEN t.cnt ELSE [lab \in 1..C.nl |-> IF t.leaf THEN t.cnt[lab] ELSE (IF Has(t.l, lab) THEN 1 ELSE 0) + (IF Has(t.r, lab) THEN 1 ELSE 0)]
RECURSIVE ISum(_)
ISum(s) == IF s = << >> THEN 0 ELSE s[1] + ISum(Tail(s))
Tab(c) == [lab \in 1..C.nl |-> IF c[lab] > 0 THEN 1 ELSE 0]
Mean(nd, pt, pm) ==
   LET c == Cnt(nd)
       d == DExp(DMul(C.disc, DSub(nd.tau, pt)))
       total == DInt(ISum(c))
       tabs == DInt(ISum(Tab(c)))
   IN [lab \in 1..C.nl |-> IF c[lab] > 0 THEN DAdd(DDiv(DSub(DInt(c[lab]), d), total), DDiv(DMul(DMul(d, tabs), pm[lab]), total)) ELSE pm[lab]]
Expm1(a) == DSub(DExp(a), One)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(nd, pt, x, pm, sm, apart) ==
   LET delta == DSub(nd.tau, pt)
       eta == DSum(Dists(nd, x))
       pb == DSub(One, DExp(DNeg(DMul(delta, eta))))
       both == DAdd(eta, C.disc)
       d == DMul(DDiv(eta, both), DDiv(DNeg(Expm1(DNeg(DMul(both, delta)))), DNeg(Expm1(DNeg(DMul(eta, delta))))))
       t == Tab(Cnt(nd))
       n == DInt(ISum(t))
       hyp(lab) == IF ISum(t) = 0 THEN pm[lab] ELSE DDiv(DAdd(IF t[lab] = 1 THEN DSub(One, d) ELSE Zero, DMul(n, pm[lab])), n)
       sm2 == IF DLt(Zero, pb) THEN [lab \in 1..C.nl |-> DAdd(sm[lab], DMul(DMul(apart, pb), hyp(lab)))] ELSE sm
       pm2 == Mean(nd, pt, pm)
       on == DMul(apart, DSub(One, pb))
   IN IF nd.leaf THEN [lab \in 1..C.nl |-> DAdd(sm2[lab], DMul(on, pm2[lab]))]
      ELSE Walk(IF Left(nd, x) THEN nd.l ELSE nd.r, nd.tau, x, pm2, sm2, on)
Prior == [lab \in 1..C.nl |-> C.base]
TreeScores(t, x) == IF IsNone(t) THEN Prior ELSE Walk(t, Zero, x, Prior, [lab \in 1..C.nl |-> Zero], One)
Scores(ts, x) == LET all == [i \in 1..Len(ts) |-> TreeScores(ts[i], x)]
                 IN [lab \in 1..C.nl |-> DDiv(DSum([i \in 1..Len(ts) |-> all[i][lab]]), DInt(Len(ts)))]
Top(s) == CHOOSE k \in 1..Len(s) : (\A j \in 1..Len(s) : ~DLt(s[k], s[j])) /\ (\A j \in 1..k-1 : DLt(s[j], s[k]))
ScoresOk(e) == LET s == Scores(e.trees, e.x)
               IN /\ e.label = Top(e.scores) /\ e.label2 = e.label
                  /\ \A lab \in 1..C.nl : DNear(e.scores[lab], s[lab], C.tol - 1)
Unchanged(e) == /\ Level = 19 => Whole(e.trees, pts)
                /\ Level = 20 => PoolOk(e.trees, e.free) /\ Same(Old, e.trees)
                /\ Level \in {21, 22} => Same(Old, e.trees)
                /\ Level = 23 => Same(Old, e.trees) /\ Whole(e.trees, pts) /\ \A i \in 1..C.trees : IsNone(e.trees[i]) \/ Tabled(e.trees[i])
Predict == /\ Is("predict") /\ UNCHANGED pts /\ at' = l
           /\ Unchanged(Ev)
           /\ Level = 22 => ScoresOk(Ev)
Copy == /\ Is("copy") /\ UNCHANGED pts /\ at' = l
        /\ Unchanged(Ev) /\ Same(Old, Ev.trees) /\ AllLinked(Ev.trees)
(* the same point n more times: in trees that hold it only the counters of  *)
(* its leaf change                                                          *)
RECURSIVE InPath(_, _)
InPath(t, x) == Inside(t, x) /\ (t.leaf \/ InPath(IF Left(t, x) THEN t.l ELSE t.r, x))
RECURSIVE More(_, _, _, _, _)
More(a, b, x, lab, n) == /\ a.leaf = b.leaf /\ a.tau = b.tau /\ a.lo = b.lo /\ a.hi = b.hi
                         /\ (a.leaf \/ Raw) => b.cnt = [a.cnt EXCEPT ![lab] = @ + n]
                         /\ IF a.leaf THEN TRUE
                            ELSE /\ a.f = b.f /\ a.v = b.v
                                 /\ IF Left(a, x) THEN More(a.l, b.l, x, lab, n) /\ SameTree(a.r, b.r) ELSE More(a.r, b.r, x, lab, n) /\ SameTree(a.l, b.l)
MoreOk(a, b, e, refused) == IF IsNone(a) THEN IsNone(b) ELSE ~IsNone(b) /\ (InPath(a, e.x) => IF refused THEN SameTree(a, b) ELSE More(a, b, e.x, e.label, e.n))
Again == /\ Is("again") /\ UNCHANGED pts /\ at' = l
         /\ Level # 22 => AllLinked(Ev.trees) /\ \A i \in 1..C.trees : MoreOk(Old[i], Ev.trees[i], Ev, FALSE)
Late == /\ Is("late") /\ UNCHANGED pts /\ at' = l
        /\ Same(Old, Ev.trees) /\ (Level = 22 => ScoresOk(Ev))
Destroy == /\ Is("destroy") /\ UNCHANGED mvars /\ (Level = 23 => Ev.live = 0)

(* ---- laws (C21): weights of the outcomes of one training over all draws  *)
(* of a grid                                                                *)
Within(a, b) == DLe(DAbs(DSub(a, b)), DRat(3, 2 * Ev.grid))
RECURSIVE Cums(_, _, _, _)
Cums(s, i, acc, out) == IF i > Len(s) THEN out ELSE LET c == DAdd(acc, s[i][2]) IN Cums(s, i + 1, c, Append(out, c))
Until(s) == Cums(s, 1, Zero, << >>)
ExpLaw(s, t) == DSub(One, DExp(DNeg(DMul(s, t))))
LevelOk(nd, pt, x, o) ==
   LET d == Dists(nd, x)
       s == DSum(d)
   IN IF ~DLt(Zero, s) THEN DEq(o.split, Zero)
      ELSE DLt(DDec(1, -9), o.reach) =>
           /\ Within(DDiv(o.split, o.reach), ExpLaw(s, DSub(nd.tau, pt)))
           /\ LET c == Until(o.taus) IN \A i \in 1..Len(c) : Within(DDiv(c[i], o.reach), ExpLaw(s, DSub(o.taus[i][1], pt)))
           /\ DLt(DDec(1, -9), o.split) =>
              /\ \A f \in 1..C.nf : IF DEq(d[f], Zero) THEN DEq(o.dims[f], Zero) ELSE Within(DDiv(o.dims[f], o.split), DDiv(d[f], s))
              /\ \A f \in 1..C.nf : LET c == Until(o.vals[f]) IN \A i \in 1..Len(c) :
                    /\ Between(nd, x, f, o.vals[f][i][1])
                    /\ Within(DDiv(c[i], o.dims[f]), DDiv(DSub(o.vals[f][i][1], Low(nd, x, f)), DSub(High(nd, x, f), Low(nd, x, f))))
              /\ \A k \in 1..Len(o.joint) : LET j == o.joint[k] IN
                    DClose(DDiv(j[4], o.split), DMul(DDiv(o.taus[j[1]][2], o.split), DDiv(o.vals[j[2]][j[3]][2], o.split)))
RECURSIVE LevelsOk(_, _, _, _, _)
LevelsOk(nd, pt, x, ls, k) == /\ LevelOk(nd, pt, x, ls[k])
                              /\ IF nd.leaf THEN TRUE ELSE LevelsOk(IF Left(nd, x) THEN nd.l ELSE nd.r, nd.tau, x, ls, k + 1)
Law == Is("law") /\ UNCHANGED mvars /\ LevelsOk(Old[1], Zero, Ev.x, Ev.levels, 1) = TRUE
Apart == Is("apart") /\ UNCHANGED mvars /\ \A k \in 1..Len(Ev.joint) : LET j == Ev.joint[k] IN DClose(j[3], DMul(Ev.a[j[1]], Ev.b[j[2]]))
TraceNext == Train \/ Again \/ Late \/ Predict \/ Copy \/ Destroy \/ Law \/ Apart \/ (TraceDone /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
