----------------------------- MODULE CuckooTable -----------------------------
(* The algorithm of the cuckoo filter at the level of its table: buckets of *)
(* entries, insertion by relocation.  TLC checks that it keeps exactly the  *)
(* content of the abstract specification (Cuckoo.tla): ghost M.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS B, BS, El, Kicks, MaxStored     \* El: sequence of <<fp, h1, h2>>; fps are positive, 0 is empty
VARIABLES tab, hand, M, failed
tvars == <<tab, hand, M, failed>>
Buckets == 0..B-1
Slots == 1..BS
Elems == 1..Len(El)
NoHand == [fp |-> 0, h1 |-> 0, h2 |-> 0, k |-> 0, cls |-> 0]
ClassOf(e) == <<El[e][1], {El[e][2], El[e][3]}>>
Cls(e) == CHOOSE f \in Elems : ClassOf(f) = ClassOf(e) /\ \A g \in Elems : ClassOf(g) = ClassOf(e) => f <= g
Reps == {Cls(e) : e \in Elems}
(* the other bucket of a fingerprint found in bucket b *)
Other(fp, b) == LET e == CHOOSE e \in Elems : El[e][1] = fp /\ b \in {El[e][2], El[e][3]}
                IN IF El[e][2] = b THEN El[e][3] ELSE El[e][2]
Free(b) == {s \in Slots : tab[b][s] = 0}
First(S) == CHOOSE s \in S : \A t \in S : s <= t
Stored == Cardinality({<<b, s>> \in Buckets \X Slots : tab[b][s] # 0})

Init == tab = [b \in Buckets |-> [s \in Slots |-> 0]] /\ hand = NoHand /\ M = [e \in Reps |-> 0] /\ failed = FALSE
Start(e) == /\ hand = NoHand
            /\ M[Cls(e)] < MaxStored
            /\ hand' = [fp |-> El[e][1], h1 |-> El[e][2], h2 |-> El[e][3], k |-> 0, cls |-> 0]
            /\ M' = [M EXCEPT ![Cls(e)] = @ + 1]
            /\ UNCHANGED <<tab, failed>>
Place == /\ hand # NoHand
         /\ \E h \in {hand.h1, hand.h2} : /\ Free(h) # {}
                                          /\ tab' = [tab EXCEPT ![h][First(Free(h))] = hand.fp]
         /\ hand' = NoHand
         /\ UNCHANGED <<M, failed>>
Relocate == /\ hand # NoHand /\ hand.k < Kicks
            /\ Free(hand.h1) = {} /\ Free(hand.h2) = {}
            /\ \E h \in {hand.h1, hand.h2}, s \in Slots :
                  /\ tab' = [tab EXCEPT ![h][s] = hand.fp]
                  /\ hand' = [fp |-> tab[h][s], h1 |-> h, h2 |-> Other(tab[h][s], h), k |-> hand.k + 1, cls |-> 0]
            /\ UNCHANGED <<M, failed>>
HandClass == CHOOSE c \in Reps : El[c][1] = hand.fp /\ {El[c][2], El[c][3]} = {hand.h1, hand.h2}
GiveUp == /\ hand # NoHand /\ hand.k = Kicks
          /\ Free(hand.h1) = {} /\ Free(hand.h2) = {}
          /\ M' = [M EXCEPT ![HandClass] = @ - 1]
          /\ hand' = NoHand /\ failed' = TRUE
          /\ UNCHANGED tab
Hits(e) == {<<b, s>> \in {El[e][2], El[e][3]} \X Slots : tab[b][s] = El[e][1]}
Remove(e) == /\ hand = NoHand
             /\ IF Hits(e) = {} THEN UNCHANGED <<tab, M>>
                ELSE \E p \in Hits(e) : /\ tab' = [tab EXCEPT ![p[1]][p[2]] = 0]
                                        /\ M' = [M EXCEPT ![Cls(e)] = @ - 1]
             /\ UNCHANGED <<hand, failed>>
Clear == /\ hand = NoHand /\ tab' = [b \in Buckets |-> [s \in Slots |-> 0]]
         /\ M' = [e \in Reps |-> 0] /\ UNCHANGED <<hand, failed>>
DoStart == \E e \in Elems : Start(e)
DoRemove == \E e \in Elems : Remove(e)
Next == DoStart \/ Place \/ Relocate \/ GiveUp \/ DoRemove \/ Clear
Spec == Init /\ [][Next]_tvars /\ WF_tvars(Place) /\ WF_tvars(Relocate) /\ WF_tvars(GiveUp)

Lookup(e) == Hits(e) # {}
(* abstraction: the table (and the fingerprint in hand) hold exactly M      *)
Content == \A c \in Reps :
   M[c] = Cardinality({<<b, s>> \in (Buckets \X Slots) : b \in {El[c][2], El[c][3]} /\ tab[b][s] = El[c][1]})
          + IF hand # NoHand /\ hand.fp = El[c][1] /\ {hand.h1, hand.h2} = {El[c][2], El[c][3]} THEN 1 ELSE 0
NoFalseNegative == hand = NoHand => \A e \in Elems : Lookup(e) = (M[Cls(e)] > 0)
(* relocation never touches a bucket that is not one of the pair's          *)
Located == \A b \in Buckets, s \in Slots : tab[b][s] # 0 => \E e \in Elems : El[e][1] = tab[b][s] /\ b \in {El[e][2], El[e][3]}
Terminates == (hand # NoHand) ~> (hand = NoHand)
=============================================================================
