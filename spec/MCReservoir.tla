---------------------------- MODULE MCReservoir ----------------------------
EXTENDS Reservoir
CONSTANT MaxAdds
VARIABLE seen          \* ghost: number of elements offered
vars == <<kind, k, n, sample, seen>>
Init == /\ \E kd \in {"plain", "exp"}, s \in 1..3 : InitWith(kd, s)
        /\ seen = 0
DoFill == seen < MaxAdds /\ Fill(seen + 1) /\ seen' = seen + 1
DoSkip == seen < MaxAdds /\ Skip /\ seen' = seen + 1
DoReplace == seen < MaxAdds /\ \E i \in Slots : Replace(i, seen + 1) /\ seen' = seen + 1
Next == DoFill \/ DoSkip \/ DoReplace
Spec == Init /\ [][Next]_vars
Range(s) == {s[i] : i \in 1..Len(s)}
(* the used slots hold distinct elements of the stream, the last one being  *)
(* kept by the exponential reservoir                                        *)
Sound == /\ \A i \in 1..k : sample[i] \in 0..seen
         /\ \A i, j \in 1..k : i # j /\ sample[i] # 0 => sample[i] # sample[j]
         /\ Cardinality(Range(sample) \ {0}) = Used
         /\ kind = "plain" => n = seen
         /\ kind = "exp" /\ seen > 0 => seen \in Range(sample)
AtMostOneSlot == [][\E i \in 0..k : \A j \in 1..k : j # i => sample'[j] = sample[j]]_vars
=============================================================================
