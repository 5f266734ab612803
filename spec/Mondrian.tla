------------------------------ MODULE Mondrian ------------------------------
(* Mondrian forests (src/mondrian.hpp, src/mondrian_unbound.hpp).           *)
(* A tree is None or a node                                                 *)
(*   [leaf |-> TRUE,  id, tau, lo, hi, cnt]                                 *)
(*   [leaf |-> FALSE, id, tau, lo, hi, cnt, f, v, l, r]                     *)
(* lo, hi: bounding box per feature; cnt: per label; tau: split time;       *)
(* f, v: split, x[f] <= v goes left.  Numbers are integers in the model and *)
(* doubles in the traces.  A point is <<x, label>>.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NLt(_, _)
NLe(a, b) == ~NLt(b, a)
NMin(a, b) == IF NLt(b, a) THEN b ELSE a
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
None == [none |-> TRUE]
IsNone(t) == "none" \in DOMAIN t
Feats(x) == DOMAIN x
Left(nd, x) == NLe(x[nd.f], nd.v)
Inside(nd, x) == \A f \in Feats(x) : NLe(nd.lo[f], x[f]) /\ NLe(x[f], nd.hi[f])
OutDims(nd, x) == {f \in Feats(x) : NLt(x[f], nd.lo[f]) \/ NLt(nd.hi[f], x[f])}
MinBox(nd, x) == [f \in Feats(x) |-> NMin(nd.lo[f], x[f])]
MaxBox(nd, x) == [f \in Feats(x) |-> NMax(nd.hi[f], x[f])]
Grown(nd, x) == [nd EXCEPT !.lo = MinBox(nd, x), !.hi = MaxBox(nd, x)]
RECURSIVE NodesOf(_)
NodesOf(t) == IF IsNone(t) THEN << >> ELSE IF t.leaf THEN <<t>> ELSE <<t>> \o NodesOf(t.l) \o NodesOf(t.r)
Ids(t) == {NodesOf(t)[i].id : i \in 1..Len(NodesOf(t))}
Size(t) == Len(NodesOf(t))
Forest(ts) == UNION {Ids(ts[i]) : i \in 1..Len(ts)}
RECURSIVE SizeTo(_, _)
SizeTo(ts, i) == IF i = 0 THEN 0 ELSE Size(ts[i]) + SizeTo(ts, i - 1)
Used(ts) == SizeTo(ts, Len(ts))

(* ---- growth ------------------------------------------------------------ *)
NewLeaf(id, x, lab, nl, life) == [leaf |-> TRUE, id |-> id, tau |-> life, lo |-> x, hi |-> x, cnt |-> [i \in 1..nl |-> IF i = lab THEN 1 ELSE 0]]
CountIn(nd, x, lab) == [Grown(nd, x) EXCEPT !.cnt[lab] = @ + 1]
(* nd gets a parent that separates it from the point x                      *)
Separate(nd, x, lab, nl, life, f, v, tau, idp, ids) ==
   LET s == NewLeaf(ids, x, lab, nl, life)
       right == NLt(v, x[f])
   IN [leaf |-> FALSE, id |-> idp, tau |-> tau, lo |-> MinBox(nd, x), hi |-> MaxBox(nd, x), cnt |-> [i \in 1..nl |-> 0],
       f |-> f, v |-> v, l |-> IF right THEN nd ELSE s, r |-> IF right THEN s ELSE nd]
(* the cuts allowed between nd and x in dimension f                         *)
Between(nd, x, f, v) == IF NLt(nd.hi[f], x[f]) THEN NLe(nd.hi[f], v) /\ NLt(v, x[f]) ELSE NLe(x[f], v) /\ NLt(v, nd.lo[f])

(* ---- structure (C19) --------------------------------------------------- *)
(* pts: the points the tree was trained with                                *)
Goes(nd, pts) == [l |-> SelectSeq(pts, LAMBDA p : Left(nd, p[1])), r |-> SelectSeq(pts, LAMBDA p : ~Left(nd, p[1]))]
Occ(pts, lab) == Len(SelectSeq(pts, LAMBDA p : p[2] = lab))
BoxOf(lo, hi, pts, f) == /\ \A i \in 1..Len(pts) : NLe(lo[f], pts[i][1][f]) /\ NLe(pts[i][1][f], hi[f])
                         /\ \E i \in 1..Len(pts) : pts[i][1][f] = lo[f]
                         /\ \E i \in 1..Len(pts) : pts[i][1][f] = hi[f]
RECURSIVE Accounts(_, _, _)
Accounts(t, pts, life) ==
   /\ pts # << >>
   /\ \A f \in DOMAIN t.lo : BoxOf(t.lo, t.hi, pts, f)
   /\ IF t.leaf THEN t.tau = life /\ \A lab \in DOMAIN t.cnt : t.cnt[lab] = Occ(pts, lab)
      ELSE LET g == Goes(t, pts)
           IN /\ NLe(t.tau, t.l.tau) /\ NLe(t.tau, t.r.tau)
              /\ NLe(t.l.hi[t.f], t.v) /\ NLt(t.v, t.r.lo[t.f])
              /\ \A f \in DOMAIN t.lo : t.lo[f] = NMin(t.l.lo[f], t.r.lo[f]) /\ t.hi[f] = NMax(t.l.hi[f], t.r.hi[f])
              /\ Accounts(t.l, g.l, life) /\ Accounts(t.r, g.r, life)
(* inner counters, when they are up to date: children that saw the label    *)
RECURSIVE Tabled(_)
Tabled(t) == IF t.leaf THEN TRUE
             ELSE /\ \A lab \in DOMAIN t.cnt : t.cnt[lab] = (IF t.l.cnt[lab] > 0 THEN 1 ELSE 0) + (IF t.r.cnt[lab] > 0 THEN 1 ELSE 0)
                  /\ Tabled(t.l) /\ Tabled(t.r)

(* ---- memory (C20) ------------------------------------------------------ *)
Private(ts) == Cardinality(Forest(ts)) = Used(ts)
(* b is a with at most one node given a new parent and sibling; nothing     *)
(* else moves                                                               *)
RECURSIVE SameNodes(_, _)
SameNodes(a, b) == /\ a.id = b.id /\ a.leaf = b.leaf
                   /\ ~a.leaf => a.f = b.f /\ a.v = b.v /\ a.tau = b.tau /\ SameNodes(a.l, b.l) /\ SameNodes(a.r, b.r)
RECURSIVE Grew(_, _, _)
Grew(a, b, x) == \/ /\ ~b.leaf
                    /\ \/ b.l.leaf /\ SameNodes(a, b.r) /\ Left(b, x)
                       \/ b.r.leaf /\ SameNodes(a, b.l) /\ ~Left(b, x)
                 \/ /\ ~a.leaf /\ ~b.leaf /\ a.id = b.id /\ a.f = b.f /\ a.v = b.v /\ a.tau = b.tau
                    /\ IF Left(a, x) THEN Grew(a.l, b.l, x) /\ SameNodes(a.r, b.r)
                       ELSE Grew(a.r, b.r, x) /\ SameNodes(a.l, b.l)
=============================================================================
