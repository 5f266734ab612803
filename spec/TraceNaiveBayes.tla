-------------------------- MODULE TraceNaiveBayes --------------------------
EXTENDS NaiveBayes, Dbl, TraceBase
VARIABLES cfg, pts             \* pts: per label, the points <<weight, features>>
mvars == <<cfg, pts>>
vars == <<cfg, pts, tid, l>>
Labs == 1..cfg.nl
Feats == 1..cfg.nf
Zero == DInt(0)
One == DInt(1)
NegInf == DNeg(DDiv(One, Zero))
TraceInit == TraceStart /\ cfg = T.cfg /\ pts = [lab \in 1..T.cfg.nl |-> << >>]
Train == /\ Is("train") /\ UNCHANGED cfg
         /\ pts' = [pts EXCEPT ![Ev.label] = Append(@, <<Ev.w, Ev.x>>)]
         /\ Ev.r
(* n times the same point is the point with n times the weight: the batch    *)
(* estimates are functions of the weights per point                          *)
Many == /\ Is("many") /\ UNCHANGED cfg
        /\ pts' = [pts EXCEPT ![Ev.label] = Append(@, <<DMul(DInt(Ev.n), Ev.w), Ev.x>>)]
        /\ Ev.r
(* log density: <<judged, may underflow, value>>                            *)
HalfLog2Pi == DDiv(DLog(DMul(DInt(2), DDec(314159265, -8))), DInt(2))
Density(s, f, x) ==
   IF s = << >> THEN <<TRUE, FALSE, NegInf>>
   ELSE LET w == Weight(s)  m == Mean(s, f)  v == Variance(s, f)
        IN IF DNear(w, One, 9) /\ w # One THEN <<FALSE, FALSE, Zero>>
           ELSE IF v = Zero
                THEN IF Constant(s, f) THEN <<TRUE, FALSE, IF DEq(x[f], s[1][2][f]) THEN Zero ELSE NegInf>>
                     ELSE IF DNear(m, x[f], 9) THEN <<FALSE, FALSE, Zero>> ELSE <<TRUE, FALSE, NegInf>>
                ELSE LET d == DSub(x[f], m)
                         e == DSub(DNeg(DDiv(DMul(d, d), DMul(DInt(2), v))), DAdd(HalfLog2Pi, DDiv(DLog(v), DInt(2))))
                     IN <<TRUE, DLt(e, DInt(-690)), e>>
Scale(v) == DDiv(v, cfg.base)
Total == DSum([lab \in Labs |-> Weight(pts[lab])])
Trained == \E lab \in Labs : pts[lab] # << >>
Digits == IF cfg.nf < 10 THEN 5 ELSE IF cfg.nf < 100 THEN 4 ELSE 3     \* the library rounds sqrt(2 pi) to 2.50663
ScoreOk(lab, x, obs) ==
   LET D == [f \in Feats |-> Density(pts[lab], f, x)]
       want == DAdd(DLog(DDiv(Weight(pts[lab]), Total)), DSum([f \in Feats |-> D[f][3]]))
   IN \/ \E f \in Feats : ~D[f][1]
      \/ IF pts[lab] = << >> \/ \E f \in Feats : DEq(D[f][3], NegInf) THEN DEq(obs, NegInf)
         ELSE \/ DNear(obs, Scale(want), Digits)
              \/ \E f \in Feats : D[f][2] /\ (DEq(obs, NegInf) \/ DLePoss(obs, Scale(DInt(-600))))
FirstBest(s) == CHOOSE i \in Labs : (\A j \in Labs : ~DLt(s[i], s[j])) /\ (\A j \in 1..i-1 : DLt(s[j], s[i]))
Predict == /\ Is("predict") /\ UNCHANGED mvars
           /\ IF Trained THEN /\ \A lab \in Labs : ScoreOk(lab, Ev.x, Ev.scores[lab])
                              /\ Ev.label = FirstBest(Ev.scores)
                              /\ Ev.label2 = Ev.label
              ELSE Ev.label \in Labs
Smoothing == Is("smoothing") /\ UNCHANGED mvars /\ DEq(Ev.got, Ev.set)
TraceNext == Train \/ Many \/ Predict \/ Smoothing \/ (TraceDone /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
