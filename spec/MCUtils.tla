------------------------------ MODULE MCUtils ------------------------------
EXTENDS Utils
CONSTANTS MaxLen, MaxVal, MaxPerm
VARIABLES v, n
vars == <<v, n>>
Init == v = << >> /\ n = 0
Grow == n = 0 /\ Len(v) < MaxLen /\ \E x \in 0..MaxVal : v' = Append(v, x) /\ UNCHANGED n
More == v = << >> /\ n < MaxPerm /\ n' = n + 1 /\ UNCHANGED v
Spec == Init /\ [][Grow \/ More]_vars
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE s[i] + Sum(s, i - 1)
Cum == [i \in 1..Len(v) |-> Sum(v, i)]
Total0 == Sum(v, Len(v))
ILt(a, b) == a < b
(* C28: index i is chosen by exactly v[i] of the draws, never if v[i] = 0   *)
PickLaw == Total0 > 0 => /\ \A u \in 0..Total0-1 : Cardinality(Picks(Cum, u, ILt, 0)) = 1
                         /\ \A i \in 1..Len(v) : Cardinality({u \in 0..Total0-1 : Picks(Cum, u, ILt, 0) = {i}}) = v[i]
                         /\ \A u \in Total0..Total0+1 : Picks(Cum, u, ILt, 0) = {i \in 1..Len(v) : v[i] > 0}
(* C28: the steps of the shuffle make every permutation equally likely      *)
ShuffleLaw == Shuffled(n, 2) = Uniform(Perms(n))
=============================================================================
