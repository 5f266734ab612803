------------------------------- MODULE Chain -------------------------------
(* The chained reservoir (src/chained_reservoir.hpp).  A slot holds a chain *)
(* of elements: the head is the sample, the others are the successors that  *)
(* have arrived, oldest first.  Elements are numbered 1, 2, ... in order of *)
(* arrival, ts[e] is the timestamp of e; timestamps do not decrease.        *)
(* nxt[i] is the number of the element that slot i has chosen as successor; *)
(* it is hidden, cand[i] is the set of its possible values.                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES k, ts, chain, cand
hvars == <<k, ts, chain, cand>>
Slots == 1..k
N == Len(ts)
Window(e) == e+1..e+k               \* the successors e can choose
InitWith(size) == /\ k = size /\ ts = << >>
                  /\ chain = [i \in 1..size |-> << >>]
                  /\ cand = [i \in 1..size |-> {}]
(* the element e = N+1 arrives.  r: the slot it replaces, 0 if none;        *)
(* push: the slots that had chosen it                                       *)
Add(t, r, push) ==
   LET e == N + 1
   IN /\ IF e <= k THEN r = e ELSE r \in 0..k
      /\ push \subseteq {i \in Slots \ {r} : e \in cand[i]}
      /\ \A i \in Slots \ (push \cup {r}) : cand[i] # {} => cand[i] \ {e} # {}
      /\ ts' = Append(ts, t)
      /\ chain' = [i \in Slots |-> IF i = r THEN <<e>> ELSE IF i \in push THEN Append(chain[i], e) ELSE chain[i]]
      /\ cand' = [i \in Slots |-> IF i = r \/ i \in push THEN Window(e) ELSE cand[i] \ {e}]
      /\ UNCHANGED k
Live(c, t) == {p \in 1..Len(c) : ts[c[p]] > t}
First(S) == CHOOSE p \in S : \A q \in S : p <= q
After(c, t) == IF Live(c, t) = {} THEN c ELSE SubSeq(c, First(Live(c, t)), Len(c))
Obsolete(t) == chain' = [i \in Slots |-> After(chain[i], t)] /\ UNCHANGED <<k, ts, cand>>
(* n more elements, with their numbers as timestamps, and meanwhile         *)
(* Obsolete, the last time with the timestamp cut when the newest element   *)
(* was upto (0, 0: never): chains is a possible outcome                     *)
MoreSlot(i, c, n2, cut, upto) ==
   LET old == {p \in 1..Len(c) : c[p] <= N}
       o == Cardinality(old)
   IN /\ c # << >>
      /\ \A p \in 1..Len(c) : c[p] \in 1..n2
      /\ \A p \in 1..Len(c)-1 : c[p] < c[p+1] /\ c[p+1] - c[p] <= k
      /\ c[Len(c)] + k > n2
      /\ \A p \in 1..Len(c) : (cut < c[p] /\ c[p] <= upto) => c[1] > cut
      (* what is left of the old chain goes on with its chosen successor      *)
      /\ o > 0 => /\ o <= Len(chain[i]) /\ SubSeq(c, 1, o) = SubSeq(chain[i], Len(chain[i]) - o + 1, Len(chain[i]))
                  /\ IF o < Len(c) THEN c[o+1] \in cand[i] ELSE \E x \in cand[i] : x > n2
More(n, chains, cut, upto) ==
   LET n2 == N + n
   IN /\ n2 >= k /\ (\A i \in Slots : MoreSlot(i, chains[i], n2, cut, upto)) = TRUE
      /\ ts' = [j \in 1..n2 |-> IF j <= N THEN ts[j] ELSE j]
      /\ chain' = chains
      /\ cand' = [i \in Slots |-> {x \in Window(chains[i][Len(chains[i])]) : x > n2}]
      /\ UNCHANGED k
Head0(c) == IF c = << >> THEN 0 ELSE c[1]
Heads == [i \in Slots |-> Head0(chain[i])]

(* the chosen successor is always still to come, at most k elements after   *)
(* the last element of the chain                                            *)
SuccessorAhead == \A i \in Slots : chain[i] # << >> =>
   cand[i] # {} /\ \A x \in cand[i] : x > N /\ x <= chain[i][Len(chain[i])] + k
Ordered == \A i \in Slots : \A p \in 1..Len(chain[i])-1 :
   chain[i][p] < chain[i][p+1] /\ chain[i][p+1] - chain[i][p] <= k
=============================================================================
