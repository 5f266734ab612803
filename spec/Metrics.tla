------------------------------ MODULE Metrics ------------------------------
(* Metrics of the coarse Mondrian forest (src/metrics.hpp).  The state of   *)
(* an instance is its update history, kept as counts: for ErrorMetrics the  *)
(* numbers of updates and errors, for KappaMetrics the confusion matrix;    *)
(* ReservoirSamplingMetrics instances share a counter of arrivals.          *)
EXTENDS Integers, Sequences
CONSTANTS NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NInt(_)
(* ---- error ------------------------------------------------------------- *)
ErrNew == [count |-> 0, errors |-> 0]
ErrUpdate(s, t, p) == [count |-> s.count + 1, errors |-> s.errors + (IF t = p THEN 0 ELSE 1)]
(* n results of the same kind in a row                                      *)
ErrMany(s, t, p, n) == [count |-> s.count + n, errors |-> s.errors + (IF t = p THEN 0 ELSE n)]
ErrIncrease(s, c) == [count |-> s.count + c, errors |-> s.errors + c]
Ratio(x, ratio, invert, size) == IF ~ratio THEN x ELSE IF invert THEN NDiv(x, NInt(size)) ELSE NMul(x, NInt(size))
ErrScore(s, ratio, invert, size) ==
   Ratio(NDiv(NInt(IF invert THEN s.count - s.errors ELSE s.errors), NInt(s.count)), ratio, invert, size)
(* ---- kappa ------------------------------------------------------------- *)
KapNew(n) == [m |-> [i \in 1..n |-> [j \in 1..n |-> 0]]]
KapUpdate(s, t, p) == [m |-> [s.m EXCEPT ![t][p] = @ + 1]]
KapMany(s, t, p, n) == [m |-> [s.m EXCEPT ![t][p] = @ + n]]
KapIncrease(s, c) == [m |-> [s.m EXCEPT ![1][2] = @ + c]]
RECURSIVE NSumTo(_, _)
NSumTo(F(_), n) == IF n = 0 THEN NInt(0) ELSE NAdd(NSumTo(F, n - 1), F(n))
KapTotal(s) == LET n == Len(s.m) IN NSumTo(LAMBDA i : NSumTo(LAMBDA j : NInt(s.m[i][j]), n), n)
(* observed agreement p_o and agreement by chance p_e                       *)
Po(s) == NDiv(NSumTo(LAMBDA i : NInt(s.m[i][i]), Len(s.m)), KapTotal(s))
Pe(s) == LET n == Len(s.m)
             Row(i) == NSumTo(LAMBDA j : NInt(s.m[i][j]), n)
             Col(i) == NSumTo(LAMBDA j : NInt(s.m[j][i]), n)
         IN NDiv(NSumTo(LAMBDA i : NMul(Row(i), Col(i)), n), NMul(KapTotal(s), KapTotal(s)))
Kappa(s) == NDiv(NSub(Po(s), Pe(s)), NSub(NInt(1), Pe(s)))
KapScore(s, ratio, invert, size) ==
   LET k == Kappa(s) IN Ratio(NDiv(IF invert THEN NAdd(NInt(1), k) ELSE NSub(NInt(1), k), NInt(2)), ratio, invert, size)
(* ---- reservoir sampling ------------------------------------------------ *)
(* all: arrivals so far, num: number of every instance                      *)
ResScore(all, number, sample) == IF number = all THEN NDiv(NInt(number - sample), NInt(all)) ELSE NDiv(NInt(1), NInt(all))
=============================================================================
