------------------------------ MODULE Weights ------------------------------
(* Finite probability distributions with exact weights: a distribution is a *)
(* function from its support to positive integers; the probability of x is  *)
(* d[x] / Total(d).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Total(d) == FoldSet(LAMBDA x, a : a + d[x], 0, DOMAIN d)
Mass(d, S) == FoldSet(LAMBDA x, a : a + d[x], 0, S)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(d) == LET g == FoldSet(LAMBDA x, a : Gcd(d[x], a), 0, DOMAIN d) IN [x \in DOMAIN d |-> d[x] \div g]
(* image of d by the kernel K: K(x) is a distribution, of the same total    *)
(* weight for every x                                                       *)
Push(d, K(_)) ==
   LET ks == [x \in DOMAIN d |-> K(x)]
       S == UNION {DOMAIN ks[x] : x \in DOMAIN d}
   IN Reduce([y \in S |-> FoldSet(LAMBDA x, a : a + (IF y \in DOMAIN ks[x] THEN d[x] * ks[x][y] ELSE 0), 0, DOMAIN d)])
(* distribution of f(x)                                                     *)
Image(d, f(_)) == LET fs == [x \in DOMAIN d |-> f(x)]
                      S == {fs[x] : x \in DOMAIN d}
                  IN Reduce([y \in S |-> FoldSet(LAMBDA x, a : a + (IF fs[x] = y THEN d[x] ELSE 0), 0, DOMAIN d)])
Pointed(x) == [y \in {x} |-> 1]
(* histogram recorded as a sequence of <<outcome, weight>>                  *)
Hist(s) == [y \in {s[i][1] : i \in 1..Len(s)} |-> LET i == CHOOSE i \in 1..Len(s) : s[i][1] = y IN s[i][2]]
=============================================================================
