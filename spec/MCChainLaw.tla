----------------------------- MODULE MCChainLaw -----------------------------
EXTENDS ChainLaw
CONSTANTS MaxAdds, Ks
Init == \E s \in Ks : InitWith(s)
DoAdd == n < MaxAdds /\ Add
Spec == Init /\ [][DoAdd]_lvars
=============================================================================
