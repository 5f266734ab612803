--------------------------- MODULE MCReservoirLaw ---------------------------
EXTENDS ReservoirLaw
CONSTANTS MaxAdds, Ks
Init == \E kd \in {"plain", "exp"}, s \in Ks : InitWith(kd, s)
DoAdd == n < MaxAdds /\ Add
Spec == Init /\ [][DoAdd]_lvars
=============================================================================
