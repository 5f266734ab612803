------------------------------- MODULE Utils -------------------------------
(* The helpers of src/utils.hpp that the classifiers rely on.               *)
EXTENDS Integers, Sequences, Weights
(* ---- choice from a cumulative distribution ----------------------------- *)
(* cum: non decreasing; Lt: order of the numbers                            *)
Possible(cum, Lt(_, _), zero) == {i \in 1..Len(cum) : Lt(IF i = 1 THEN zero ELSE cum[i-1], cum[i])}
Picks(cum, u, Lt(_, _), zero) ==
   LET A == {i \in 1..Len(cum) : Lt(u, cum[i])}
   IN IF A = {} THEN Possible(cum, Lt, zero) ELSE {CHOOSE i \in A : \A j \in A : i <= j}
(* ---- shuffle ----------------------------------------------------------- *)
Ident(n) == [i \in 1..n |-> i]
Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
(* distribution over permutations after the steps n, n-1, ..., i            *)
RECURSIVE Shuffled(_, _)
Shuffled(n, i) == IF i > n THEN Pointed(Ident(n))
                  ELSE Push(Shuffled(n, i + 1), LAMBDA p : Image([j \in 1..i |-> 1], LAMBDA j : Swap(p, i, j)))
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Uniform(S) == [x \in S |-> 1]
(* ---- integers ---------------------------------------------------------- *)
Abs(a) == IF a < 0 THEN -a ELSE a
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
FirstMax(s, Lt(_, _)) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : ~Lt(s[i], s[j])) /\ (\A j \in 1..i-1 : Lt(s[j], s[i]))
=============================================================================
