----------------------------- MODULE NaiveBayes -----------------------------
(* Naive Bayes with Gaussian estimators (src/naive_bayes.hpp).  The state   *)
(* is, per label, the sequence of its points <<weight, features>>; what an  *)
(* estimator has to say is a function of that sequence as a bag.  Welford   *)
(* is the incremental form; MCNaiveBayes shows that it computes the batch   *)
(* one for every history.  Numbers are rationals (MC) or doubles (traces).  *)
EXTENDS Integers, Sequences
CONSTANTS NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NLt(_, _), NInt(_)
RECURSIVE NSum(_, _, _)
NSum(s, F(_), i) == IF i = 0 THEN NInt(0) ELSE NAdd(NSum(s, F, i - 1), F(s[i]))
Over(s, F(_)) == NSum(s, F, Len(s))
(* ---- batch estimate of feature f over the points s --------------------- *)
Weight(s) == Over(s, LAMBDA p : p[1])
Mean(s, f) == NDiv(Over(s, LAMBDA p : NMul(p[1], p[2][f])), Weight(s))
VarSum(s, f) == LET m == Mean(s, f)
                IN Over(s, LAMBDA p : NMul(p[1], NMul(NSub(p[2][f], m), NSub(p[2][f], m))))
Constant(s, f) == \A i \in 1..Len(s) : s[i][2][f] = s[1][2][f]
(* unbiased variance, 0 when it is not defined                              *)
Variance(s, f) == IF Constant(s, f) \/ ~NLt(NInt(1), Weight(s)) THEN NInt(0)
                  ELSE NDiv(VarSum(s, f), NSub(Weight(s), NInt(1)))
(* ---- incremental estimate ---------------------------------------------- *)
EmptyEst == [w |-> NInt(0), mean |-> NInt(0), vs |-> NInt(0)]
Welford(e, x, w) ==
   IF ~NLt(NInt(0), e.w) THEN [w |-> w, mean |-> x, vs |-> NInt(0)]
   ELSE LET w2 == NAdd(e.w, w)
            m2 == NAdd(e.mean, NDiv(NMul(w, NSub(x, e.mean)), w2))
        IN [w |-> w2, mean |-> m2, vs |-> NAdd(e.vs, NMul(w, NMul(NSub(x, e.mean), NSub(x, m2))))]
EstVariance(e) == IF NLt(NInt(1), e.w) THEN NDiv(e.vs, NSub(e.w, NInt(1))) ELSE NInt(0)
=============================================================================
