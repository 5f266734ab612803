----------------------------- MODULE TraceUtils -----------------------------
EXTENDS Utils, Dbl, TraceBase
VARIABLES n                    \* events so far
vars == <<n, tid, l>>
TraceInit == TraceStart /\ n = 0
Zero == DInt(0)
Pick == Is("pick") /\ (Ev.r + 1) \in Picks(Ev.p, Ev.u, DLt, Zero)
(* cumulative shares of the values, for the sum given or computed           *)
RECURSIVE CumSum(_, _)
CumSum(s, i) == IF i = 0 THEN Zero ELSE DAdd(CumSum(s, i - 1), s[i])
Normal == /\ Is("normal") /\ Len(Ev.out) = Len(Ev.v)
          /\ LET sum == IF Ev.given THEN Ev.sum ELSE CumSum(Ev.v, Len(Ev.v))
             IN \A i \in 1..Len(Ev.v) : DClose(Ev.out[i], DDiv(CumSum(Ev.v, i), sum))
Shuffle == Is("shuffle") /\ Hist(Ev.hist) = Uniform(Perms(Ev.n))
(* a shuffle whatever the draws keeps the elements                          *)
Keep == Is("keep") /\ Canon(Ev.before) = Canon(Ev.after)
Exponential == Is("exponential") /\ DClose(Ev.r, DDiv(DNeg(DLog(DSub(DInt(1), Ev.u))), Ev.rate))
IndexMax == Is("index_max") /\ Ev.r + 1 = FirstMax(Ev.a, DLt)
Scalar == /\ Is("scalar")
          /\ DEq(Ev.min, IF DLt(Ev.b, Ev.a) THEN Ev.b ELSE Ev.a) /\ DEq(Ev.max, IF DLt(Ev.a, Ev.b) THEN Ev.b ELSE Ev.a)
          /\ DEq(Ev.abs, DAbs(Ev.a))
          /\ LET f == DFloor(DAdd(DAbs(Ev.a), DRat(1, 2))) IN Ev.round = IF DLt(Ev.a, Zero) THEN -f ELSE f
          /\ DClose(Ev.expm1, DSub(DExp(Ev.a), DInt(1)))
Integer == /\ Is("int") /\ Ev.abs = Abs(Ev.a) /\ DEq(Ev.div, DInt(Quot(Ev.a, Ev.b)))
           /\ Ev.min = (IF Ev.a < Ev.b THEN Ev.a ELSE Ev.b) /\ Ev.max = (IF Ev.a < Ev.b THEN Ev.b ELSE Ev.a)
TraceNext == ((Pick \/ Normal \/ Shuffle \/ Keep \/ Exponential \/ IndexMax \/ Scalar \/ Integer) /\ n' = n + 1) \/ (TraceDone /\ UNCHANGED n)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
