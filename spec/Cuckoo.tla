------------------------------- MODULE Cuckoo -------------------------------
(* What a user can rely on in the cuckoo filter (src/cuckoo_filter.hpp).    *)
(* A fingerprint stored for an element can be in either of the element's    *)
(* two buckets and relocation only moves it between them, so the observable *)
(* content is a bag over the classes <<fingerprint, {bucket, bucket}>>.     *)
(* bel is the set of contents that are possible given the answers so far:   *)
(* it has one member, except after a failed add, where any one fingerprint  *)
(* may have been dropped, until lookups tell which.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Configs   \* [B, bs, el |-> sequence of <<fingerprint, h1, h2>>]
VARIABLES cfg, cls, bel
cvars == <<cfg, cls, bel>>

Elems == 1..Len(cfg.el)
ClassOf(el, e) == <<el[e][1], {el[e][2], el[e][3]}>>
(* the class of an element is named by its first element *)
Rep(el, e) == CHOOSE f \in 1..e : /\ ClassOf(el, f) = ClassOf(el, e)
                                  /\ \A g \in 1..(f-1) : ClassOf(el, g) # ClassOf(el, e)
ClsOf(el) == [e \in 1..Len(el) |-> Rep(el, e)]
Reps == {cls[e] : e \in Elems}
Empty == [e \in Elems |-> 0]
Pair(c) == {cfg.el[c][2], cfg.el[c][3]}
Plus(M, c) == [M EXCEPT ![c] = @ + 1]
Minus(M, c) == [M EXCEPT ![c] = @ - 1]
RECURSIVE SumOver(_, _)
SumOver(M, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN M[c] + SumOver(M, S \ {c})
Total(M) == SumOver(M, Reps)
Present(M, e) == M[cls[e]] > 0

(* --- capacity -------------------------------------------------------- *)
(* an arrangement of M in the buckets exists (Hall's condition)           *)
Feasible(M) == \A S \in SUBSET (0..cfg.B-1) :
                  SumOver(M, {c \in Reps : Pair(c) \subseteq S}) <= cfg.bs * Cardinality(S)
(* a bucket of e has a free entry in every arrangement of M               *)
RoomForSure(M, e) == \E h \in Pair(e) : SumOver(M, {c \in Reps : h \in Pair(c)}) < cfg.bs

InitWith(c) == cfg = c /\ cls = ClsOf(c.el) /\ bel = {[e \in 1..Len(c.el) |-> 0]}
Init == \E c \in Configs : InitWith(c)

AddOk(e) == bel' = {Plus(M, cls[e]) : M \in bel} /\ UNCHANGED <<cfg, cls>>
(* a failed add drops one stored or new fingerprint                       *)
AddFail(e) == /\ bel' = UNION {LET N == Plus(M, cls[e]) IN {Minus(N, c) : c \in {d \in Reps : N[d] > 0}} : M \in bel}
              /\ UNCHANGED <<cfg, cls>>
Remove(e) == /\ bel' = {IF Present(M, e) THEN Minus(M, cls[e]) ELSE M : M \in bel}
             /\ UNCHANGED <<cfg, cls>>
Clear == bel' = {Empty} /\ UNCHANGED <<cfg, cls>>
(* the answers of lookup(e) for all e                                     *)
Answers(r) == bel' = {M \in bel : \A e \in Elems : r[e] = Present(M, e)} /\ UNCHANGED <<cfg, cls>>
(* how many times each class can be removed before lookup says no         *)
Counted(n) == bel' = {M \in bel : \A c \in Reps : n[c] = M[c]} /\ UNCHANGED <<cfg, cls>>

Consistent == bel # {}
=============================================================================
