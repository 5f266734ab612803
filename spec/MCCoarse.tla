------------------------------ MODULE MCCoarse ------------------------------
(* All small forests under every strategy, limit and trimming rule.         *)
EXTENDS Coarse
CONSTANTS Trees, Dims, MaxX, NL, Life, Pool, MaxTrains, Ext, Trim, Deep, Most   \* Deep, Most: limits of the levels and of the size of a tree (0: none)
MLt(a, b) == a < b
VARIABLES ts, pts, ret, trims
vars == <<ts, pts, ret, trims>>
Xs == [1..Dims -> 0..MaxX]
Init == ts = [i \in 1..Trees |-> None] /\ pts = [i \in 1..Trees |-> << >>] /\ ret = TRUE /\ trims = 0
Lowest(S) == CHOOSE a \in S : \A b \in S : a <= b
Free(f) == (0..Pool-1) \ Forest(f)
Ghosted(nd, lab) == IF Ext = Ghost THEN [nd EXCEPT !.cnt[lab] = @ + 1] ELSE nd
(* every way to halve nd: a leaf cut through gives away any number of points *)
RECURSIVE Shares(_, _, _)
Shares(t, v, left) ==
   IF t.leaf THEN LET all == IF left THEN t.was[2] <= v /\ t.was[1] < v ELSE t.was[1] >= v /\ t.was[2] > v
                      some == t.was[1] < v /\ v < t.was[2]
                  IN {[t EXCEPT !.cnt = c] : c \in {c \in [1..NL -> 0..MaxTrains] : \A k \in 1..NL : IF all THEN c[k] = t.cnt[k] ELSE IF some THEN c[k] <= t.cnt[k] ELSE c[k] = 0}}
   ELSE UNION {{[t EXCEPT !.l = a, !.r = b] : a \in Shares(t.l, v, left)} : b \in Shares(t.r, v, left)}
RECURSIVE Plain(_, _)
Plain(t, lab) == IF t.leaf THEN [i \in DOMAIN t \ {"was", "hit"} |-> IF i = "cnt" /\ t.hit THEN [t.cnt EXCEPT ![lab] = @ + 1] ELSE t[i]]
                 ELSE [t EXCEPT !.l = Plain(@, lab), !.r = Plain(@, lab)]
Halvings(nd, x, lab, f, v, tau, a, b, left) ==
   LET side == Clamp([lo |-> nd.lo, hi |-> nd.hi], f, v, ~left)
       here == (x[f] <= v) = left                       \* the point goes to the side that is kept
       tree(o) == LET s == [leaf |-> TRUE, id |-> b, tau |-> Life, lo |-> side.lo, hi |-> side.hi, cnt |-> [k \in 1..NL |-> LeafSum(nd, k) - LeafSum(o, k)]]
                      o2 == Plain(IF here THEN Down(o, x) ELSE o, lab)
                      s2 == IF here THEN s ELSE CountIn(s, x, lab)
                  IN [leaf |-> FALSE, id |-> a, tau |-> tau, lo |-> MinBox(nd, x), hi |-> MaxBox(nd, x), cnt |-> [k \in 1..NL |-> 0], f |-> f, v |-> v,
                      l |-> IF left THEN o2 ELSE s2, r |-> IF left THEN s2 ELSE o2]
   IN {tree(o) : o \in Shares(KeptSide(nd, f, v, left, Life), v, left)}
RECURSIVE Take(_, _, _, _, _, _, _)
Take(nd, pt, dist, x, lab, free, size) ==
   LET a == Lowest(free)
       b == Lowest(free \ {a})
       O == OutDims(nd, x)
       can == Cardinality(free) >= 2 /\ (Deep = 0 \/ ~TooDeep(nd, dist, Deep)) /\ (Most = 0 \/ size < OddLimit(Most))
       times == {q \in pt..Life : q < nd.tau}
       wants == O # {} /\ times # {}
       top(t) == IF Ext = Ghost THEN [t EXCEPT !.cnt = [i \in 1..NL |-> nd.cnt[i] + (IF i = lab THEN 1 ELSE 0)]] ELSE t
       cuts == IF ~can THEN {} ELSE UNION {UNION {{top(Separate(nd, x, lab, NL, Life, f, v, tau, a, b)) : v \in {w \in 0..MaxX : Between(nd, x, f, w)}} : f \in O} : tau \in times}
       on(m) == IF nd.leaf THEN {[m EXCEPT !.cnt[lab] = @ + 1]}
                ELSE IF Left(nd, x) THEN {[Ghosted(m, lab) EXCEPT !.l = y] : y \in Take(nd.l, nd.tau, dist + 1, x, lab, free, size)}
                ELSE {[Ghosted(m, lab) EXCEPT !.r = y] : y \in Take(nd.r, nd.tau, dist + 1, x, lab, free, size)}
       fits == on(Grown(nd, x))
       stuck == IF ~wants \/ can THEN {}
                ELSE CASE Ext \in {Stop, Original, Barycenter, Sliced, Halved} -> fits
                       [] Ext = Ghost -> {[nd EXCEPT !.cnt[lab] = @ + 1]}
                       [] Ext = Partial -> {nd}
                       [] Ext = CountOnly -> on(nd)
       slices == IF Ext # Sliced \/ ~nd.leaf \/ O # {} \/ ~can THEN {}
                 ELSE UNION {UNION {{SliceLeaf(nd, x, lab, Life, f, v, tau, a, b, side) : v \in {w \in 0..MaxX : \E av \in 0..MaxX : nd.lo[f] < av /\ av < nd.hi[f] /\ NMin(av, x[f]) <= w /\ w < NMax(av, x[f])},
                                      side \in BOOLEAN} : f \in 1..Dims} : tau \in pt..Life}
       halves == IF Ext # Halved \/ ~can \/ ~wants THEN {}
                 ELSE UNION {UNION {Halvings(nd, x, lab, f, v, tau, a, b, left) : v \in {w \in 0..MaxX : nd.lo[f] <= w /\ w < nd.hi[f]}, left \in BOOLEAN} : f \in 1..Dims, tau \in times}
   IN cuts \cup fits \cup stuck \cup slices \cup halves
RECURSIVE Through(_, _, _, _)
Through(f, i, x, lab) ==
   IF i > Trees THEN {f}
   ELSE IF IsNone(f[i])
        THEN IF Free(f) = {} THEN Through(f, i + 1, x, lab)
             ELSE Through([f EXCEPT ![i] = NewLeaf(Lowest(Free(f)), x, lab, NL, Life)], i + 1, x, lab)
        ELSE IF Ext = Stop /\ Cardinality(Free(f)) <= 2 THEN Through(f, i + 1, x, lab)
        ELSE UNION {Through([f EXCEPT ![i] = y], i + 1, x, lab) : y \in Take(f[i], 0, 0, x, lab, Free(f), Size(f[i]))}
Given == Len(pts[1]) < MaxTrains
(* which trees take the point: known when the forest is traversed in order  *)
RECURSIVE Takers(_, _, _)
Takers(f, g, i) == IF i > Trees THEN {}
                   ELSE LET avail == Pool - (SizeTo(g, i - 1) + Used(f) - SizeTo(f, i - 1))
                        IN (IF IsNone(f[i]) THEN (IF avail >= 1 THEN {i} ELSE {}) ELSE IF Ext = Stop /\ avail <= 2 THEN {} ELSE {i}) \cup Takers(f, g, i + 1)
Train == /\ Given
         /\ \E x \in Xs, lab \in 1..NL : \E f \in Through(ts, 1, x, lab) :
               /\ ts' = f
               /\ pts' = [i \in 1..Trees |-> IF i \in Takers(ts, f, 1) THEN Append(pts[i], <<x, lab>>) ELSE pts[i]]
               /\ ret' = (Takers(ts, f, 1) = 1..Trees)
               /\ UNCHANGED trims
RECURSIVE Trimmed(_, _)
Trimmed(f, i) == IF i > Trees THEN {f}
                 ELSE IF IsNone(f[i]) \/ f[i].leaf THEN Trimmed(f, i + 1)
                 ELSE UNION {Trimmed([f EXCEPT ![i] = CutLeaf(f[i], id)], i + 1) : id \in IF Trim = TrimCount THEN LeastCounted(f[i]) ELSE AllLeaves(f[i])}
DoTrim == /\ Trim # NoTrim /\ Cardinality(Free(ts)) <= 1 /\ trims < 2
          /\ ts' \in Trimmed(ts, 1) /\ trims' = trims + 1 /\ UNCHANGED <<pts, ret>>
Next == Train \/ DoTrim
Spec == Init /\ [][Next]_vars
(* C24 *)
WellFormed == \A i \in 1..Trees : ~IsNone(ts[i]) => Sound(ts[i], Ext, IF trims = 0 THEN NoTrim ELSE Trim, Life) /\ (Ext \in {Sliced, Halved} \/ Inhabited(ts[i], Ext)) /\ Counted(ts[i], pts[i], Ext, IF trims = 0 THEN NoTrim ELSE Trim, Life, TRUE)
(* C25 *)
Pooled == Private(ts) /\ Used(ts) <= Pool /\ Forest(ts) \subseteq 0..Pool-1
Bounded == \A i \in 1..Trees : /\ Deep > 0 => Levels(ts[i]) <= Deep
                               /\ Most > 0 => Size(ts[i]) <= OddLimit(Most)
                               /\ IsNone(ts[i]) \/ Size(ts[i]) % 2 = 1
Frees == [][trims' > trims => \A i \in 1..Trees : Size(ts'[i]) = IF Size(ts[i]) > 1 THEN Size(ts[i]) - 2 ELSE Size(ts[i])]_vars
Kept == [][trims' = trims => \A i \in 1..Trees : IsNone(ts[i]) \/ SameNodes(ts[i], ts'[i]) \/ \E x \in Xs : Grew(ts[i], ts'[i], x)]_vars
=============================================================================
