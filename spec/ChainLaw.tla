------------------------------ MODULE ChainLaw ------------------------------
(* The law of the chained reservoir: exact distribution of its state when   *)
(* the random numbers are independent and uniform.  A state gives for every *)
(* slot <<chain, number of the chosen successor>>; timestamps are 1, 2, ... *)
EXTENDS Weights
VARIABLES k, n, dist
lvars == <<k, n, dist>>
Slots == 1..k
Window(e) == e+1..e+k
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
InitWith(size) == k = size /\ n = 0 /\ dist = Pointed([i \in 1..size |-> << << >>, 0 >>])
(* element e takes slot i and chooses its successor                         *)
TakeSet(s, i, e) == {[s EXCEPT ![i] = <<  <<e>>, x >>] : x \in Window(e)}
Arrive(e, s) ==
   IF e <= k THEN [t \in TakeSet(s, e, e) |-> 1]
   ELSE [t \in {s} \cup UNION {TakeSet(s, i, e) : i \in Slots} |-> IF t = s THEN (e - k) * k ELSE 1]
(* the slots that had chosen e queue it and choose again                    *)
Queue(e, s) ==
   LET P == {i \in Slots : s[i][2] = e}
       S == {[i \in Slots |-> IF i \in P THEN <<Append(s[i][1], e), f[i]>> ELSE s[i]] : f \in [P -> Window(e)]}
   IN [t \in S |-> Pow(k, k - Cardinality(P))]
Add == /\ n' = n + 1
       /\ LET A(s) == Arrive(n + 1, s)
              Q(s) == Queue(n + 1, s)
          IN dist' = Push(Push(dist, A), Q)
       /\ UNCHANGED k
(* heads after obsolete(t)                                                  *)
HeadAfter(c, t) == IF c = << >> THEN 0
                   ELSE LET L == {p \in 1..Len(c) : c[p] > t}
                        IN IF L = {} THEN c[1] ELSE c[CHOOSE p \in L : \A q \in L : p <= q]
(* what successive obsolete(1), obsolete(2), ... show: the chains           *)
Chains == LET F(s) == [i \in Slots |-> s[i][1]] IN Image(dist, F)
Heads == LET F(s) == [i \in Slots |-> HeadAfter(s[i][1], 0)] IN Image(dist, F)
Holds(e) == {s \in DOMAIN dist : \E i \in Slots : HeadAfter(s[i][1], 0) = e}
At(i, e) == {s \in DOMAIN dist : HeadAfter(s[i][1], 0) = e}
(* C08                                                                      *)
UniformInclusion == n >= k => LET W == Total(dist) IN \A e \in 1..n : Mass(dist, Holds(e)) * n = k * W
UniformSlots == \A e \in k+1..n, i, j \in Slots : Mass(dist, At(i, e)) = Mass(dist, At(j, e))
(* the successor of the last element of a chain is uniform over those still *)
(* possible                                                                 *)
Pending(i, e, x) == Mass(dist, {s \in DOMAIN dist : Len(s[i][1]) > 0 /\ s[i][1][Len(s[i][1])] = e /\ s[i][2] = x})
UniformSuccessor == \A i \in Slots, e \in 1..n : \A x, y \in Window(e) : x > n /\ y > n => Pending(i, e, x) = Pending(i, e, y)
=============================================================================
