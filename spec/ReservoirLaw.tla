---------------------------- MODULE ReservoirLaw ----------------------------
(* The law of the samples: dist is the exact distribution of the content of *)
(* the reservoir when the random numbers are independent and uniform.       *)
EXTENDS Weights
VARIABLES kind, k, n, dist
lvars == <<kind, k, n, dist>>
Used(s) == Cardinality({i \in 1..k : s[i] # 0})
Put(s, i, e) == [s EXCEPT ![i] = e]
PlainKernel(e, s) ==
   IF e <= k THEN Pointed(Put(s, e, e))
   ELSE [t \in {s} \cup {Put(s, i, e) : i \in 1..k} |-> IF t = s THEN e - k ELSE 1]
ExpKernel(e, s) ==
   LET u == Used(s)
   IN [t \in {Put(s, i, e) : i \in 1..u} \cup (IF u < k THEN {Put(s, u + 1, e)} ELSE {}) |->
         IF u < k /\ t = Put(s, u + 1, e) THEN k - u ELSE 1]
InitWith(kd, size) == kind = kd /\ k = size /\ n = 0 /\ dist = Pointed([i \in 1..size |-> 0])
Add == /\ n' = n + 1
       /\ dist' = IF kind = "plain" THEN LET K(s) == PlainKernel(n + 1, s) IN Push(dist, K)
                                    ELSE LET K(s) == ExpKernel(n + 1, s) IN Push(dist, K)
       /\ UNCHANGED <<kind, k>>
Holds(e) == {s \in DOMAIN dist : \E i \in 1..k : s[i] = e}
At(i, e) == {s \in DOMAIN dist : s[i] = e}
(* C06: every element has the probability k/n, in every slot               *)
UniformInclusion == kind = "plain" /\ n >= k =>
   LET W == Total(dist) IN \A e \in 1..n : Mass(dist, Holds(e)) * n = k * W
UniformSlots == kind = "plain" => \A e \in k+1..n, i, j \in 1..k : Mass(dist, At(i, e)) = Mass(dist, At(j, e))
(* C07: the last element is always there; all used slots are equally likely *)
(* to be replaced: given the number u of used slots before the add ...      *)
NewestKept == kind = "exp" /\ n > 0 => Holds(n) = DOMAIN dist
(* older elements are never more likely than newer ones                     *)
Bias == kind = "exp" => \A e \in 1..n-1 : e > 1 => Mass(dist, Holds(e)) <= Mass(dist, Holds(e + 1))
=============================================================================
