------------------------------ MODULE MCChain ------------------------------
EXTENDS Chain
CONSTANTS MaxAdds, MaxK
Init == \E s \in 1..MaxK : InitWith(s)
Now == IF N = 0 THEN 1 ELSE ts[N]
DoAdd == /\ N < MaxAdds
         /\ \E t \in Now..Now+1, r \in 0..k : \E p \in SUBSET Slots : Add(t, r, p)
DoObsolete == \E t \in 0..Now : Obsolete(t)
Spec == Init /\ [][DoAdd \/ DoObsolete]_hvars
(* obsolete(t) leaves in every slot an element later than t if its chain    *)
(* has one, and never loses such an element                                 *)
ObsoleteProp == [][ts' = ts => \A i \in Slots :
    /\ \E p \in 1..Len(chain[i]) : chain'[i] = SubSeq(chain[i], p, Len(chain[i])) \/ chain'[i] = chain[i]]_hvars
=============================================================================
