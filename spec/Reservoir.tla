----------------------------- MODULE Reservoir -----------------------------
(* The two array reservoirs of src/reservoir_sampling.hpp.                  *)
(*   kind "plain": n counts the elements seen; the first k elements fill    *)
(*     the slots in order, a later one is dropped or replaces a slot.       *)
(*   kind "exp"  : n counts the used slots; every element is stored, in the *)
(*     next unused slot or over a used one.                                 *)
(* Slots are 0..k-1; sample[i+1] is the content of slot i, 0 if unused.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind, k, n, sample
rvars == <<kind, k, n, sample>>
Slots == 0..k-1
Used == IF kind = "plain" THEN IF n < k THEN n ELSE k ELSE n
Store(i, e) == sample' = [sample EXCEPT ![i+1] = e]

InitWith(kd, size) == kind = kd /\ k = size /\ n = 0 /\ sample = [i \in 1..size |-> 0]

(* sample_index(): the rule for the returned slot r, without storing        *)
IndexRule(r) ==
   IF kind = "plain"
   THEN /\ IF n < k THEN r = n ELSE r \in {-1} \cup Slots
        /\ n' = n + 1
   ELSE \/ n < k /\ r = n /\ n' = n + 1
        \/ n > 0 /\ r \in 0..n-1 /\ n' = n
SampleIndex(r) == IndexRule(r) /\ UNCHANGED <<kind, k, sample>>
Fill(e) == /\ n < k /\ IndexRule(n) /\ n' = n + 1 /\ Store(n, e) /\ UNCHANGED <<kind, k>>
Skip == /\ kind = "plain" /\ n >= k /\ IndexRule(-1) /\ UNCHANGED <<kind, k, sample>>
Replace(i, e) == /\ i \in Slots /\ IF kind = "plain" THEN n >= k ELSE i < n
                 /\ n' = (IF kind = "plain" THEN n + 1 ELSE n)
                 /\ Store(i, e) /\ UNCHANGED <<kind, k>>
Add(e, r) == \/ r = n /\ Fill(e)
             \/ r = -1 /\ Skip
             \/ Replace(r, e)
UserWrite(i, e) == i \in Slots /\ Store(i, e) /\ UNCHANGED <<kind, k, n>>
CountInRange == kind = "exp" => n <= k
Filled == \A i \in Slots : (sample[i+1] # 0) => i < Used
=============================================================================
