------------------------------- MODULE Coarse -------------------------------
(* The memory-bounded Mondrian forest of src/mondrian_coarse.hpp: trees as  *)
(* in Mondrian.tla over one pool of nodes, with                             *)
(*  - six ways to handle a point that asks for nodes that cannot be had,    *)
(*  - limits on the depth or on the number of nodes of the trees,           *)
(*  - trimming of a leaf when the pool is full.                             *)
EXTENDS Mondrian
Stop == 0          \* EXTEND_NONE: the point is refused when fewer than 3 nodes are free
Original == 1      \* the boxes are extended, the point goes on
Ghost == 2         \* the point is counted where it wanted to branch off, and stops there
Partial == 3       \* the point is dropped where it wanted to branch off
CountOnly == 4     \* the point goes on, the box is not extended
Barycenter == 5    \* the box is extended by a share of the distance, the point goes on
Halved == 7        \* as Barycenter, and nodes are cut through the middle of their box
Sliced == 6        \* as Barycenter, and leaves are split around the average of the points
NoTrim == 0
TrimAny == 1
TrimFading == 2
TrimCount == 3

RECURSIVE Levels(_)
Levels(t) == IF IsNone(t) THEN 0 ELSE IF t.leaf THEN 1 ELSE 1 + (IF Levels(t.l) < Levels(t.r) THEN Levels(t.r) ELSE Levels(t.l))
RECURSIVE Leaves(_)
Leaves(t) == IF IsNone(t) THEN << >> ELSE IF t.leaf THEN <<t>> ELSE Leaves(t.l) \o Leaves(t.r)
RECURSIVE LeafSum(_, _)
LeafSum(t, lab) == IF t.leaf THEN t.cnt[lab] ELSE LeafSum(t.l, lab) + LeafSum(t.r, lab)
RECURSIVE Adds(_)
Adds(s) == IF s = << >> THEN 0 ELSE s[1] + Adds(Tail(s))
Total(lf) == Adds(lf.cnt)

(* ---- limits: k bounds the levels of every tree, or the size of a tree ---*)
(* growing at a node at distance dist of the root deepens the tree to       *)
(* dist + Levels(nd) + 1 there                                              *)
TooDeep(nd, dist, k) == dist + Levels(nd) + 1 > k
OddLimit(k) == IF k % 2 = 0 THEN k - 1 ELSE k

(* ---- trimming: the leaf and its parent leave, the sibling takes the      *)
(* parent's place                                                           *)
RECURSIVE CutLeaf(_, _)
CutLeaf(t, id) == IF t.leaf THEN t
                  ELSE IF t.l.leaf /\ t.l.id = id THEN t.r
                  ELSE IF t.r.leaf /\ t.r.id = id THEN t.l
                  ELSE [t EXCEPT !.l = CutLeaf(@, id), !.r = CutLeaf(@, id)]
LeastCounted(t) == LET L == Leaves(t) IN {L[i].id : i \in {j \in 1..Len(L) : \A k \in 1..Len(L) : Total(L[j]) <= Total(L[k])}}
AllLeaves(t) == {Leaves(t)[i].id : i \in 1..Len(Leaves(t))}

(* ---- splits of leaves: the box of the leaf is cut at v between the       *)
(* average and the point; the leaf keeps its points and one side, a new leaf *)
(* with an empty counter gets the other, and the point is counted on its side *)
SliceLeaf(nd, x, lab, life, f, v, tau, a, b, keepsLeft) ==
   LET kept == IF keepsLeft THEN [nd EXCEPT !.hi[f] = v] ELSE [nd EXCEPT !.lo[f] = v]
       fresh == [nd EXCEPT !.id = b, !.cnt = [i \in DOMAIN nd.cnt |-> 0], !.lo = IF keepsLeft THEN [@ EXCEPT ![f] = v] ELSE @, !.hi = IF keepsLeft THEN @ ELSE [@ EXCEPT ![f] = v]]
       goesLeft == NLe(x[f], v)
       k == IF goesLeft = keepsLeft THEN [kept EXCEPT !.cnt[lab] = @ + 1] ELSE kept
       n == IF goesLeft = keepsLeft THEN fresh ELSE [fresh EXCEPT !.cnt[lab] = @ + 1]
   IN [leaf |-> FALSE, id |-> a, tau |-> tau, lo |-> nd.lo, hi |-> nd.hi, cnt |-> [i \in DOMAIN nd.cnt |-> 0],
       f |-> f, v |-> v, l |-> IF keepsLeft THEN k ELSE n, r |-> IF keepsLeft THEN n ELSE k]

(* ---- halving a node: its box is cut at v in feature f.  One side keeps   *)
(* the node with what lies there of its subtree: boxes are clamped, parts   *)
(* of which nothing but the split remains are removed.  Each leaf gives     *)
(* away points to the new leaf on the other side; they remember the extent  *)
(* they had in feature f, and whether the point went there                  *)
Clamp(t, f, v, left) == IF left THEN [t EXCEPT !.lo[f] = NMin(@, v), !.hi[f] = NMin(@, v)] ELSE [t EXCEPT !.lo[f] = NMax(@, v), !.hi[f] = NMax(@, v)]
Nothing(t, f, v) == t.lo[f] = v /\ t.hi[f] = v
Leafed(k, was, life) == [i \in (DOMAIN k \ {"f", "v", "l", "r"}) \cup {"was", "hit"} |->
                     CASE i = "leaf" -> TRUE [] i = "was" -> was [] i = "hit" -> FALSE [] i = "tau" -> life
                       [] i = "cnt" -> IF k.leaf THEN k.cnt ELSE [j \in DOMAIN k.cnt |-> 0] [] OTHER -> k[i]]
RECURSIVE OneSide(_, _, _, _, _)
OneSide(t, f, v, left, life) ==
   LET k == Clamp(t, f, v, left)
   IN IF t.leaf \/ Nothing(k, f, v) THEN Leafed(k, <<t.lo[f], t.hi[f]>>, life)
      ELSE LET a == OneSide(t.l, f, v, left, life)
               b == OneSide(t.r, f, v, left, life)
           IN IF Nothing(a, f, v) THEN b ELSE IF Nothing(b, f, v) THEN a ELSE [k EXCEPT !.l = a, !.r = b]
RECURSIVE Down(_, _)
Down(t, x) == LET k == [t EXCEPT !.lo = MinBox(t, x), !.hi = MaxBox(t, x)]
              IN IF t.leaf THEN [k EXCEPT !.hit = TRUE] ELSE IF Left(t, x) THEN [k EXCEPT !.l = Down(@, x)] ELSE [k EXCEPT !.r = Down(@, x)]
(* a node that is a leaf itself is clamped first and keeps its points       *)
KeptSide(nd, f, v, left, life) == OneSide(IF nd.leaf THEN Clamp(nd, f, v, left) ELSE nd, f, v, left, life)

(* ---- structure (C24) --------------------------------------------------- *)
(* CountOnly lets a child grow out of its parent's box: nothing is said of  *)
(* the boxes of its descendants, nor of splits after trimming               *)
RECURSIVE Sound(_, _, _, _)
Sound(t, ext, trim, life) ==
   /\ \A f \in DOMAIN t.lo : NLe(t.lo[f], t.hi[f])
   /\ IF t.leaf THEN t.tau = life
      ELSE /\ NLe(t.tau, t.l.tau) /\ NLe(t.tau, t.r.tau)
           /\ (ext # CountOnly \/ trim = NoTrim) => NLe(t.l.hi[t.f], t.v) /\ (IF ext \in {Sliced, Halved} THEN NLe(t.v, t.r.lo[t.f]) ELSE NLt(t.v, t.r.lo[t.f]))
           /\ ext # CountOnly => \A f \in DOMAIN t.lo : NLe(t.lo[f], NMin(t.l.lo[f], t.r.lo[f])) /\ NLe(NMax(t.l.hi[f], t.r.hi[f]), t.hi[f])
           /\ ext = Ghost => \A lab \in DOMAIN t.cnt : t.cnt[lab] >= t.l.cnt[lab] + t.r.cnt[lab]
           /\ Sound(t.l, ext, trim, life) /\ Sound(t.r, ext, trim, life)
(* every leaf, and in the ghost forest every node, has seen a point         *)
RECURSIVE Inhabited(_, _)
Inhabited(t, ext) == /\ (t.leaf \/ ext = Ghost) => Total(t) > 0
                     /\ ~t.leaf => Inhabited(t.l, ext) /\ Inhabited(t.r, ext)
(* the points the tree was given, against its counters                      *)
Counted(t, pts, ext, trim, life, whole) ==
   LET n(lab) == Occ(pts, lab)
       s(lab) == LeafSum(t, lab)
   IN /\ \A lab \in DOMAIN t.cnt :
         CASE ext = Ghost -> IF trim = NoTrim THEN t.cnt[lab] = n(lab) ELSE t.cnt[lab] <= n(lab)
           [] ext = Partial -> s(lab) <= n(lab)
           [] OTHER -> IF trim = NoTrim THEN s(lab) = n(lab) ELSE s(lab) <= n(lab)
      /\ (trim = NoTrim /\ (ext \in {Stop, Original} \/ (ext = Barycenter /\ whole))) => Accounts(t, pts, life)
=============================================================================
