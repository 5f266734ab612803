----------------------------- MODULE TraceCoarse -----------------------------
(* Histories of a CoarseMondrianForest.  The nodes hold fs, the fading      *)
(* score of trimming rule 2.  Level 24: structure, 25: pool, limits and     *)
(* trimming, 29: what every point does, 30: predictions; 31: all of it on   *)
(* histories that split leaves.                                             *)
EXTENDS Coarse, TraceMondrian
VARIABLES sz, count, cut,      \* sizes at the last training; points seen; a leaf was trimmed
          full, fsum, fn       \* trainings that ended with a full pool; faded sum and number of the points
cvars == <<pts, at, sz, count, cut, full, fsum, fn>>
allvars == <<cvars, tid, l>>
NT == C.trees
cap == C.cap
CInit == /\ TraceInit /\ sz = [i \in 1..T.cfg.trees |-> 0] /\ count = 0 /\ cut = FALSE
         /\ full = 0 /\ fsum = [f \in 1..T.cfg.nf |-> DInt(0)] /\ fn = DInt(0)
At(k) == Level = k \/ Level \in {31, 32}
(* limits *)
ByLevels == C.mgmt \in {0, 1}
BySize == C.mgmt \in {2, 4}
Limit == IF C.mgmt = 2 THEN OddLimit(IF C.sl > 0 THEN C.sl ELSE C.cap \div C.trees) ELSE IF C.mgmt = 4 THEN C.cap ELSE C.sl
Measure(t) == IF C.depth THEN Levels(t) ELSE Size(t)
SurePaused(i, m, nd, dist) == \/ ByLevels /\ TooDeep(nd, dist, Limit)
                              \/ BySize /\ sz[i] >= Limit /\ Measure(m) >= Limit
MayPaused(i, m, nd, dist) == \/ ByLevels /\ TooDeep(nd, dist, Limit)
                             \/ BySize /\ (sz[i] >= Limit \/ Measure(m) >= Limit)
(* trimming *)
FadeBy == DRat(199, 200)
RECURSIVE Faded(_)
Faded(t) == IF IsNone(t) THEN t ELSE IF t.leaf THEN [t EXCEPT !.fs = DMul(@, FadeBy)] ELSE [t EXCEPT !.l = Faded(@), !.r = Faded(@)]
LeastFaded(t) == LET L == Leaves(t) IN {L[i].id : i \in {j \in 1..Len(L) : \A k \in 1..Len(L) : ~Sure(L[k].fs, L[j].fs)}}
Candidates(t) == IF C.trim = TrimCount THEN LeastCounted(t) ELSE IF C.trim = TrimFading THEN LeastFaded(t) ELSE AllLeaves(t)
LeafScore(lf) == IF C.trim = TrimFading THEN lf.fs ELSE DInt(Total(lf))
Share(t) == LET L == Leaves(t)
                s == DSum([i \in 1..Len(L) |-> LeafScore(L[i])])
                m == CHOOSE i \in 1..Len(L) : L[i].id \in Candidates(t)
            IN IF DLt(Zero, s) THEN DDiv(LeafScore(L[m]), s) ELSE Zero
MayCutLeaf(t) == ~IsNone(t) /\ ~t.leaf /\ (C.trim = TrimAny \/ ~Sure(C.mts, Share(t)))
MustCutLeaf(t) == ~IsNone(t) /\ ~t.leaf /\ (C.trim = TrimAny \/ Sure(Share(t), C.mts) \/ Share(t) = C.mts)
TrimOf(t) == (IF MayCutLeaf(t) THEN {CutLeaf(t, id) : id \in Candidates(t)} ELSE {}) \cup (IF MustCutLeaf(t) THEN {} ELSE {t})
TrimSize(t) == IF MustCutLeaf(t) THEN Size(t) - 2 ELSE Size(t)
Start == IF C.trim = TrimFading THEN [i \in 1..NT |-> Faded(Old[i])] ELSE Old
Trims(ts) == C.trim # NoTrim /\ cap - Used(ts) <= 1 /\ count % 100 = 0
Mids(i) == IF Trims(Old) THEN TrimOf(Start[i]) ELSE {Start[i]}
MidSize(i) == IF Trims(Old) THEN TrimSize(Start[i]) ELSE Size(Start[i])
CRoom(new, i) == cap - (SizeTo(new, i - 1) + Adds([k \in 1..NT |-> IF k >= i THEN MidSize(k) ELSE 0]))
Stopped(new, i) == C.ext = Stop /\ CRoom(new, i) <= 2
Takes(new, i) == IF IsNone(Old[i]) THEN CRoom(new, i) >= 1 ELSE ~Stopped(new, i)

(* ---- what one point does in one tree (C29) ------------------------------ *)
RECURSIVE SameCnts(_, _)
SameCnts(a, b) == a.cnt = b.cnt /\ (a.leaf \/ (SameCnts(a.l, b.l) /\ SameCnts(a.r, b.r)))
RECURSIVE SameFs(_, _)
SameFs(a, b) == IF a.leaf THEN Near(a.fs, b.fs) ELSE SameFs(a.l, b.l) /\ SameFs(a.r, b.r)
RECURSIVE SameFe(_, _)
SameFe(a, b) == a.fe = b.fe /\ (a.leaf \/ (SameFe(a.l, b.l) /\ SameFe(a.r, b.r)))
SameC(a, b) == SameTree(a, b) /\ (Level = 32 => SameFe(a, b)) /\ (C.ext = Ghost => SameCnts(a, b)) /\ (C.trim = TrimFading => SameFs(a, b))
Seen(a, b, lab) == b.cnt = [a.cnt EXCEPT ![lab] = @ + 1]
Shared(from, to) == IF C.ext = Barycenter /\ C.fe # One THEN DAdd(from, DMul(DSub(to, from), C.fe)) ELSE to
Box(a, b, x) == IF C.ext = Barycenter
                THEN \A f \in 1..C.nf : /\ DLe(DMin(a.lo[f], x[f]), b.lo[f]) /\ DLe(b.hi[f], DMax(a.hi[f], x[f]))  \* never beyond the point
                                        /\ IF DLt(x[f], a.lo[f]) THEN Near(b.lo[f], Shared(a.lo[f], x[f])) ELSE b.lo[f] = a.lo[f]
                                        /\ IF DLt(a.hi[f], x[f]) THEN Near(b.hi[f], Shared(a.hi[f], x[f])) ELSE b.hi[f] = a.hi[f]
                ELSE b.lo = MinBox(a, x) /\ b.hi = MaxBox(a, x)
Stays(a, b) == a.leaf = b.leaf /\ a.tau = b.tau /\ (~a.leaf => a.f = b.f /\ a.v = b.v)
InLeaf(a, b, lab) == Seen(a, b, lab) /\ (C.trim = TrimFading => Near(b.fs, DAdd(a.fs, One)))
Out(a, x) == OutDims(a, x) # {}
MayWant(a, pt, x, e) == Out(a, x) /\ (IF e.rnd THEN DLt(pt, a.tau) ELSE MayCut(a, pt, x, e.u))
SureWant(a, pt, x, e) == Out(a, x) /\ ~e.rnd /\ SureCut(a, pt, x, e.u)
CutC(a, b, pt, x, lab, e) ==
   /\ CutOk(a, b, pt, x, lab, e)
   /\ LET o == IF Left(b, x) THEN b.r ELSE b.l IN SameC(a, o)
   /\ C.ext = Ghost => Seen(a, b, lab)
   /\ Level = 32 => b.fe = 0 /\ b.l.fe + b.r.fe = a.fe
(* leaves are split around the average of the points (helper 1), or of the  *)
(* middles of the leaves (helper 2), once the pool has been full for long   *)
Splitting == C.sh # 0 /\ C.ext = Barycenter /\ full > 20
NewSum(e) == [f \in 1..C.nf |-> DAdd(DMul(fsum[f], C.fc), e.x[f])]
NewN == DAdd(DMul(fn, C.fc), One)
Middle(lf, f) == DMul(DAdd(lf.lo[f], lf.hi[f]), DRat(1, 2))
Average(m, e) == IF C.sh = 1 THEN [f \in 1..C.nf |-> DDiv(NewSum(e)[f], NewN)]
                 ELSE LET L == Leaves(m)
                          n == DInt(Adds([i \in 1..Len(L) |-> Total(L[i])]))
                      IN [f \in 1..C.nf |-> DDiv(DSum([i \in 1..Len(L) |-> DMul(Middle(L[i], f), DInt(Total(L[i])))]), n)]
Slices(a, av, x) == {f \in 1..C.nf : Sure(a.lo[f], av[f]) /\ Sure(av[f], a.hi[f]) /\ ~Near(av[f], x[f])}
Doubt(a, av) == \E f \in 1..C.nf : Near(a.lo[f], av[f]) \/ Near(av[f], a.hi[f])
Weight(a, av, x) == [f \in 1..C.nf |-> IF DLt(a.lo[f], av[f]) /\ DLt(av[f], a.hi[f]) THEN DAbs(DSub(av[f], x[f])) ELSE Zero]
MustSlice(a, e, m) == Slices(a, Average(m, e), e.x) # {}
Give(n, yes) == IF yes THEN n + 1 ELSE n
Slice(a, b, pt, e, m) ==
   LET av == Average(m, e)
       f == b.f
       left == Left(b, e.x)
       o == IF b.l.id = a.id THEN b.l ELSE b.r
       s == IF b.l.id = a.id THEN b.r ELSE b.l
       here(c) == left = (c.id = b.l.id)               \* the point goes to c
       share == DDiv(DSub(b.v, a.lo[f]), DSub(a.hi[f], a.lo[f]))
       low == DMin(av[f], e.x[f])
       wide == DSub(DMax(av[f], e.x[f]), low)
       more == DSub(DMul(DInt(Total(a)), share), DMul(DInt(Total(a)), DSub(One, share)))
   IN /\ ~b.leaf /\ b.l.leaf /\ b.r.leaf /\ o.id = a.id /\ s.id # a.id
      /\ Poss(a.lo[f], av[f]) /\ Poss(av[f], a.hi[f]) /\ Poss(low, b.v) /\ Poss(b.v, DAdd(low, wide))
      /\ DLe(pt, b.tau) /\ DLe(b.tau, a.tau) /\ o.tau = a.tau /\ s.tau = C.life
      /\ e.rnd \/ /\ Near(b.tau, DAdd(pt, DMul(e.u, DSub(a.tau, pt))))
                  /\ Doubt(a, av) \/ MayPick(Weight(a, av, e.x), f, e.u)
                  /\ Near(b.v, DAdd(low, DMul(e.u, wide)))
      /\ b.lo = a.lo /\ b.hi = a.hi
      /\ b.l.lo = a.lo /\ b.l.hi = [a.hi EXCEPT ![f] = b.v] /\ b.r.lo = [a.lo EXCEPT ![f] = b.v] /\ b.r.hi = a.hi
      /\ \A k \in 1..C.nl : /\ o.cnt[k] + s.cnt[k] = Give(a.cnt[k], k = e.label)
                            /\ s.cnt[k] = Give(0, here(s) /\ k = e.label)
      /\ Sure(DInt(2), more) => o = b.l
      /\ Sure(DInt(2), DNeg(more)) => o = b.r
      /\ C.trim = TrimFading => Near(o.fs, IF here(o) THEN DAdd(a.fs, One) ELSE a.fs) /\ Near(s.fs, IF here(s) THEN One ELSE Zero)
(* ---- split triggers (C32) ----------------------------------------------- *)
(* A point that asks for a cut of node a, with nodes at hand: refusals of   *)
(* the past (fe) may make it cut a through the middle of its box instead:   *)
(* always when a has some (trigger 1), or with the probability of its share *)
(* of the points seen (2), or of the refusals on the way of the point (3)   *)
RECURSIVE WayFe(_, _)
WayFe(t, x) == t.fe + (IF t.leaf THEN 0 ELSE WayFe(IF Left(t, x) THEN t.l ELSE t.r, x))
Against(m, x) == IF C.trig = 2 THEN count ELSE WayFe(m, x)
MayHalve(a, m, e) == /\ C.trig # 0 /\ a.fe > 0
                     /\ \/ C.trig = 1
                        \/ Against(m, e.x) > 0 /\ (e.rnd \/ Poss(e.u, DRat(a.fe, Against(m, e.x))))
MayPass(a, m, e) == \/ C.trig = 0 \/ a.fe = 0
                    \/ C.trig # 1 /\ (Against(m, e.x) = 0 \/ (IF e.rnd THEN a.fe < Against(m, e.x) ELSE Poss(DRat(a.fe, Against(m, e.x)), e.u)))
(* the part of its points that a leaf gives away                            *)
Given(was, v, left) ==
   LET w == DSub(was[2], was[1])
       below == IF DLt(Zero, w) THEN DMin(DMax(DDiv(DSub(v, was[1]), w), Zero), One) ELSE IF DLt(was[1], v) THEN One ELSE Zero
   IN IF was = <<v, v>> THEN One ELSE IF left THEN DSub(One, below) ELSE below
RECURSIVE Became(_, _, _, _, _, _)
Became(t, b, lab, top, v, left) ==
   /\ b.leaf = t.leaf /\ b.id = t.id /\ b.tau = t.tau /\ b.lo = t.lo /\ b.hi = t.hi /\ (b.id # top => b.fe = t.fe)
   /\ IF t.leaf THEN /\ \A k \in 1..C.nl : LET had == Give(t.cnt[k], t.hit /\ k = lab)
                                            gone == had - b.cnt[k]
                                        IN gone >= 0 /\ DLe(DAbs(DSub(DInt(gone), DMul(DInt(t.cnt[k]), Given(t.was, v, left)))), DRat(500001, 1000000))
                     /\ C.trim = TrimFading => Near(b.fs, IF t.hit THEN DAdd(t.fs, One) ELSE t.fs)
      ELSE b.f = t.f /\ b.v = t.v /\ Became(t.l, b.l, lab, top, v, left) /\ Became(t.r, b.r, lab, top, v, left)
FeShared(a, o, s) ==                \* o: what is left of node a, s: the new leaf
   o.id = a.id => CASE C.dist = 0 -> o.fe = 0 /\ s.fe = 0
                    [] C.dist = 1 -> o.fe = a.fe \div 2 /\ s.fe = a.fe \div 2
                    [] C.dist = 2 -> o.fe + s.fe \in {a.fe, a.fe - 1} /\ o.fe >= a.fe \div 2
                    [] C.dist = 3 -> s.fe = 0 /\ o.fe = a.fe - 1
(* points of a at or below the split, each leaf spread evenly over its box  *)
RECURSIVE Below(_, _, _)
Below(t, f, v) == IF t.leaf THEN DMul(DInt(Total(t)), IF Nothing(t, f, v) THEN One ELSE Given(<<t.lo[f], t.hi[f]>>, v, FALSE)) ELSE DAdd(Below(t.l, f, v), Below(t.r, f, v))
Halve(a, b, pt, e) ==
   LET f == b.f
       v == b.v
       w == [g \in 1..C.nf |-> DSub(a.hi[g], a.lo[g])]
       left == b.r.leaf /\ (b.r.id \notin Ids(a))          \* a keeps the left side
       s == IF left THEN b.r ELSE b.l
       o == IF left THEN b.l ELSE b.r
       here == Left(b, e.x) = ~left                          \* the point goes to s
       t == KeptSide(a, f, v, left, C.life)
       two == DMul(DInt(2), Below(a, f, v))
       all == DInt(Adds([k \in 1..C.nl |-> LeafSum(a, k)]))
       fresh == Clamp([lo |-> a.lo, hi |-> a.hi], f, v, ~left)
   IN /\ ~b.leaf /\ s.leaf /\ s.id \notin Ids(a) /\ s.tau = C.life
      /\ DLe(a.lo[f], v) /\ DLe(v, a.hi[f]) /\ DLe(pt, b.tau) /\ DLt(b.tau, a.tau)
      /\ e.rnd \/ /\ Near(b.tau, DAdd(pt, Wait(e.u, DSum(Dists(a, e.x)))))
                  /\ MayPick(w, f, e.u) /\ Near(v, DAdd(a.lo[f], DMul(e.u, w[f])))
      /\ b.lo = MinBox(a, e.x) /\ b.hi = MaxBox(a, e.x) /\ b.fe = 0
      /\ IF here THEN s.lo = MinBox(fresh, e.x) /\ s.hi = MaxBox(fresh, e.x) ELSE s.lo = fresh.lo /\ s.hi = fresh.hi
      /\ Became(IF here THEN t ELSE Down(t, e.x), o, e.label, a.id, v, left)
      /\ \A k \in 1..C.nl : s.cnt[k] + LeafSum(o, k) = Give(LeafSum(a, k), k = e.label)     \* no point is lost or counted twice
      /\ FeShared(a, o, s)
      /\ LET room == DInt(2 * Len(Leaves(a)) + 1) IN (DLt(DAdd(all, room), two) => left) /\ (DLt(two, DSub(all, room)) => ~left)
      /\ C.trim = TrimFading => Near(s.fs, IF here THEN One ELSE Zero)
RECURSIVE StepC(_, _, _, _, _, _, _, _)
OnC(a, b, pt, dist, e, room, i, m) ==
   IF a.leaf THEN InLeaf(a, b, e.label)
   ELSE /\ C.ext = Ghost => Seen(a, b, e.label)
        /\ IF Left(a, e.x) THEN SameC(a.r, b.r) /\ StepC(a.l, b.l, a.tau, dist + 1, e, room, i, m)
           ELSE SameC(a.l, b.l) /\ StepC(a.r, b.r, a.tau, dist + 1, e, room, i, m)
StepC(a, b, pt, dist, e, room, i, m) ==
   LET mayNot == ~room \/ MayPaused(i, m, a, dist)
       sureNot == ~room \/ SurePaused(i, m, a, dist)
   IN \/ /\ ~sureNot /\ MayWant(a, pt, e.x, e) /\ (Level = 32 => MayPass(a, m, e)) /\ CutC(a, b, pt, e.x, e.label, e)
      \/ /\ Level = 32 /\ ~sureNot /\ MayWant(a, pt, e.x, e) /\ MayHalve(a, m, e) /\ Halve(a, b, pt, e)
      \/ /\ a.leaf /\ Splitting /\ ~Out(a, e.x) /\ ~sureNot /\ Slice(a, b, pt, e, m)
      \/ /\ ~(a.leaf /\ Splitting /\ ~Out(a, e.x) /\ ~mayNot /\ MustSlice(a, e, m))
         /\ ~SureWant(a, pt, e.x, e) /\ Stays(a, b) /\ (Level = 32 => b.fe = a.fe) /\ Box(a, b, e.x) /\ OnC(a, b, pt, dist, e, room, i, m)
      \/ /\ mayNot /\ MayWant(a, pt, e.x, e) /\ Stays(a, b) /\ (Level = 32 => b.fe = a.fe + 1)
         /\ CASE C.ext \in {Stop, Original, Barycenter} -> Box(a, b, e.x) /\ OnC(a, b, pt, dist, e, room, i, m)
              [] C.ext = Ghost -> b.lo = a.lo /\ b.hi = a.hi /\ Seen(a, b, e.label) /\ (a.leaf \/ (SameC(a.l, b.l) /\ SameC(a.r, b.r)))
              [] C.ext = Partial -> SameC(a, b)
              [] C.ext = CountOnly -> b.lo = a.lo /\ b.hi = a.hi /\ OnC(a, b, pt, dist, e, room, i, m)
Rooted(b, e) == b.leaf /\ b.lo = e.x /\ b.hi = e.x /\ b.tau = C.life /\ b.cnt = [k \in 1..C.nl |-> IF k = e.label THEN 1 ELSE 0]
Point29(e, i) == LET b == e.trees[i] IN
   IF IsNone(Old[i]) THEN IsNone(b) \/ Rooted(b, e)
   ELSE ~IsNone(b) /\ \E m \in Mids(i) : IF Stopped(e.trees, i) THEN SameC(m, b) ELSE StepC(m, b, Zero, 0, e, CRoom(e.trees, i) >= 2, i, m)

(* ---- pool, limits, trimming (C25) --------------------------------------- *)
PoolIs(ts, free, believed, room, n) ==
   /\ Private(ts) /\ Forest(ts) \subseteq 0..room-1 /\ free = room - Used(ts) /\ believed = free
   /\ room * C.node + n * C.root <= C.max /\ (room + 1) * C.node + n * C.root > C.max
   /\ C.obj <= C.max + 600
CPoolOk(ts, free, believed) == PoolIs(ts, free, believed, cap, NT)
Limited(ts) == \A i \in 1..NT : ~IsNone(ts[i]) =>
                  /\ (ByLevels /\ Limit >= 1) => Levels(ts[i]) <= Limit
                  /\ (BySize /\ Limit >= 1) => (IF C.depth THEN Levels(ts[i]) <= Limit ELSE Size(ts[i]) <= Limit)
(* the fading score of the leaf that counts the point grows by one, that of *)
(* a new leaf is 0                                                          *)
Scored(m, b) == C.trim = TrimFading =>
   LET M == Leaves(m)
       B == Leaves(b)
   IN \A j \in 1..Len(B) : IF \E k \in 1..Len(M) : M[k].id = B[j].id
                           THEN LET K == M[CHOOSE k \in 1..Len(M) : M[k].id = B[j].id]
                                IN Near(B[j].fs, IF K.cnt = B[j].cnt THEN K.fs ELSE DAdd(K.fs, One))
                           ELSE B[j].fs = Zero
Point25(e, i) == LET b == e.trees[i] IN
   IF IsNone(Old[i]) THEN IsNone(b) = (CRoom(e.trees, i) < 1) /\ (~IsNone(b) => Size(b) = 1)
   ELSE ~IsNone(b) /\ \E m \in Mids(i) : /\ Scored(m, b)
                                         /\ \/ SameNodes(m, b)
                                            \/ /\ CRoom(e.trees, i) >= 2 /\ ~Stopped(e.trees, i) /\ ~(BySize /\ SurePaused(i, m, m, 0)) /\ Grew(m, b, e.x)
(* extending a box by a share of the distance leaves points outside of it  *)
Loosely == IF C.ext = Barycenter /\ C.fe # One THEN CountOnly ELSE IF C.sh # 0 \/ C.trig # 0 THEN Sliced ELSE C.ext
CheckAll(ts, ps) == \A i \in 1..Len(ts) : IF IsNone(ts[i]) THEN ps[i] = << >>
                                          ELSE /\ Sound(ts[i], Loosely, IF cut' THEN C.trim ELSE NoTrim, C.life) /\ (C.sh = 0 /\ C.trig = 0 => Inhabited(ts[i], C.ext))
                                               /\ Counted(ts[i], ps[i], C.ext, IF cut' THEN C.trim ELSE NoTrim, C.life, C.fe = One /\ C.sh = 0 /\ C.trig = 0)
Upkeep(ts) == (C.quick /\ C.ext \in {Stop, Original} /\ ~cut') => \A i \in 1..NT : IsNone(ts[i]) \/ Tabled(ts[i])
CTrain == /\ Is("train")
          /\ LET e == Ev
             IN /\ Len(e.trees) = NT
                /\ pts' = [i \in 1..NT |-> IF Takes(e.trees, i) THEN Append(pts[i], <<e.x, e.label>>) ELSE pts[i]]
                /\ at' = l /\ count' = count + 1
                /\ cut' = (cut \/ Trims(Old))
                /\ full' = IF cap - Used(e.trees) <= 1 THEN full + 1 ELSE full
                /\ IF C.sh = 1 THEN fsum' = NewSum(e) /\ fn' = NewN ELSE UNCHANGED <<fsum, fn>>
                /\ sz' = [i \in 1..NT |-> Measure(e.trees[i])]
                /\ At(24) => AllLinked(e.trees) /\ Private(e.trees) /\ CheckAll(e.trees, pts') /\ Upkeep(e.trees)
                /\ At(25) => /\ CPoolOk(e.trees, e.free, e.believed) /\ Limited(e.trees)
                                 /\ e.r = (\A i \in 1..NT : Takes(e.trees, i))
                                 /\ Level \notin {31, 32} => \A i \in 1..NT : Point25(e, i)
                /\ At(29) => \A i \in 1..NT : Point29(e, i)
(* many points in a row, while nodes are left                               *)
RECURSIVE FadeIn(_, _, _)
FadeIn(s, ps, i) == IF i > Len(ps) THEN s
                    ELSE FadeIn(TLCEval([sum |-> [f \in 1..C.nf |-> DAdd(DMul(s.sum[f], C.fc), ps[i][1][f])], n |-> DAdd(DMul(s.n, C.fc), One)]), ps, i + 1)
Bulk == /\ Is("grown") /\ UNCHANGED cut
         /\ LET e == Ev
                ps == [i \in 1..NT |-> pts[i] \o e.pts]
                s == FadeIn([sum |-> fsum, n |-> fn], e.pts, 1)
            IN /\ pts' = ps /\ at' = l /\ count' = count + Len(e.pts) /\ fsum' = s.sum /\ fn' = s.n
               /\ full' = IF cap - Used(e.trees) <= 1 THEN full + 1 ELSE full
               /\ sz' = [i \in 1..NT |-> Measure(e.trees[i])]
               /\ e.r /\ \A i \in 1..NT : Size(e.trees[i]) = 2 * Len(ps[i]) - 1
               /\ At(24) => AllLinked(e.trees) /\ Private(e.trees) /\ CheckAll(e.trees, ps)
               /\ At(25) => CPoolOk(e.trees, e.free, e.believed) /\ Limited(e.trees)
Rest == <<full, fsum, fn>>
CTrim == /\ Is("trim") /\ UNCHANGED <<pts, sz, count, Rest>> /\ at' = l
         /\ cut' = (cut \/ C.trim # NoTrim)
         /\ LET e == Ev IN
            /\ At(24) => AllLinked(e.trees) /\ Private(e.trees) /\ CheckAll(e.trees, pts)
            /\ At(25) => /\ CPoolOk(e.trees, e.free, e.believed) /\ Limited(e.trees)
                             /\ \A i \in 1..NT : IF C.trim = NoTrim \/ IsNone(Old[i]) THEN Same(<<Old[i]>>, <<e.trees[i]>>)
                                                      ELSE \E m \in TrimOf(Old[i]) : Same(<<m>>, <<e.trees[i]>>)
(* predict with the first trees only (first = 0: all of them)               *)
FirstOk(e) == IF e.first = 0 THEN ScoresOk(e) ELSE ScoresOk([e EXCEPT !.trees = SubSeq(@, 1, e.first)])
CPredict == /\ Is("predict") /\ UNCHANGED <<pts, sz, count, cut, Rest>> /\ at' = l
            /\ LET e == Ev IN
               /\ At(24) => AllLinked(e.trees) /\ CheckAll(e.trees, pts) /\ Same(Old, e.trees)
                                /\ ((C.ext # Ghost /\ ~C.quick) => \A i \in 1..NT : IsNone(e.trees[i]) \/ Tabled(e.trees[i])) /\ Upkeep(e.trees)
               /\ At(25) => CPoolOk(e.trees, e.free, e.believed) /\ Same(Old, e.trees)
               /\ At(29) => Same(Old, e.trees)
               /\ At(30) => Same(Old, e.trees) /\ FirstOk(e)
CCopy == /\ Is("copy") /\ UNCHANGED <<pts, sz, count, cut, Rest>> /\ at' = l
         /\ AllLinked(Ev.trees) /\ Same(Old, Ev.trees) /\ (At(25) => CPoolOk(Ev.trees, Ev.free, Ev.believed))
CAgain == /\ Is("again") /\ UNCHANGED <<pts, sz, count, cut, Rest>> /\ at' = l
          /\ Level # 30 => AllLinked(Ev.trees) /\ \A i \in 1..NT : MoreOk(Old[i], Ev.trees[i], Ev, Stopped(Ev.trees, i))
CLate == Late /\ UNCHANGED <<sz, count, cut, Rest>> /\ (Level = 30 => ScoresOk(Ev))
CDestroy == Is("destroy") /\ UNCHANGED cvars
(* points and leaves of little weight of a tree, as asked                   *)
Sizes == /\ Is("sizes") /\ UNCHANGED cvars
         /\ LET t == Old[Ev.i]
            IN /\ Ev.points = (IF IsNone(t) THEN 0 ELSE Adds([k \in 1..Len(Leaves(t)) |-> Total(Leaves(t)[k])]))
               /\ Ev.light = Cardinality({k \in 1..Len(Leaves(t)) : Total(Leaves(t)[k]) < 50})
CLaw == Law /\ UNCHANGED <<sz, count, cut, Rest>>
CApart == Apart /\ UNCHANGED <<sz, count, cut, Rest>>
Lots == Is("lots") /\ UNCHANGED cvars
        /\ LET n == Len(Ev.trims) IN \A i \in 1..n : DClose(Ev.trims[i], DRat(1, n))
Deep == /\ Is("deep") /\ UNCHANGED cvars
        /\ Ev.links /\ Ev.nodes = 2 * Ev.points - 1 /\ Ev.believed = Ev.free /\ Ev.free = cap - Ev.nodes
CNext == Bulk \/ Sizes \/ CAgain \/ CLate \/ CTrain \/ CTrim \/ CPredict \/ CCopy \/ CDestroy \/ CLaw \/ CApart \/ Lots \/ Deep \/ (TraceDone /\ UNCHANGED cvars)
CSpec == CInit /\ [][CNext]_allvars
=============================================================================
