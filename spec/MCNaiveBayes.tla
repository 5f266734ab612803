---------------------------- MODULE MCNaiveBayes ----------------------------
EXTENDS NaiveBayes, Rat
CONSTANTS Values, Weights, MaxTrains, Labels
VARIABLES pts, est
vars == <<pts, est>>
MInt(i) == R(i)
W4(w) == <<w, 2>>                \* weights are halves
Init == pts = [lab \in Labels |-> << >>] /\ est = [lab \in Labels |-> EmptyEst]
RECURSIVE Sizes(_)
Sizes(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(pts[x]) + Sizes(S \ {x})
Train == /\ Sizes(Labels) < MaxTrains
         /\ \E lab \in Labels, x \in Values, w \in Weights :
              /\ pts' = [pts EXCEPT ![lab] = Append(@, <<Norm(w, 2), <<R(x)>>>>)]
              /\ est' = [est EXCEPT ![lab] = Welford(@, R(x), Norm(w, 2))]
Spec == Init /\ [][Train]_vars
(* C16: the incremental estimate is the batch one, whatever the order       *)
Equal == \A lab \in Labels : pts[lab] # << >> =>
            /\ est[lab].w = Weight(pts[lab])
            /\ est[lab].mean = Mean(pts[lab], 1)
            /\ est[lab].vs = VarSum(pts[lab], 1)
            /\ EstVariance(est[lab]) = Variance(pts[lab], 1)
(* a point mass is recognised, and only there the variance vanishes         *)
PointMass == \A lab \in Labels : pts[lab] # << >> /\ RLt(R(1), Weight(pts[lab])) =>
                (Variance(pts[lab], 1) = R(0) <=> Constant(pts[lab], 1))
(* n times the same point is one point of n times the weight                *)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN s ELSE Times(Append(s, s[Len(s)]), n - 1)
Merged == \A lab \in Labels, n \in {2} : pts[lab] # << >> =>
   LET s == pts[lab]  k == Len(s)
       many == Times(s, n)
       one == [s EXCEPT ![k][1] = RMul(R(n + 1), @)]
   IN Weight(many) = Weight(one) /\ Mean(many, 1) = Mean(one, 1) /\ Variance(many, 1) = Variance(one, 1)
Unseen == \A lab \in Labels : pts[lab] = << >> => est[lab] = EmptyEst
=============================================================================
