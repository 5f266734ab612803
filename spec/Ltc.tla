-------------------------------- MODULE Ltc --------------------------------
(* Lightweight temporal compression (src/ltc.hpp).  A segment starts at     *)
(* (t0, v0); [lo, hi] is the cone of the slopes of the lines from there     *)
(* that pass within eps of every point since (limits clamped to [vmin,      *)
(* vmax]); the last of these points has the time T.                         *)
(* Numbers are abstract (rationals in the model, doubles in the traces):    *)
(* NLt is "certainly less", so that a comparison of equals may go both ways.*)
(* Ends(m) are the values that may be stored for m (truncation).            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NLt(_, _), NMin(_, _), NMax(_, _), Two, Zero
(* cfg: [eps, vmin, vmax, int]                                              *)
Empty == [n |-> 0, t0 |-> Zero, v0 |-> Zero, T |-> Zero, lo |-> Zero, hi |-> Zero, out |-> << >>]
Up(c, v) == NMin(NAdd(v, c.eps), c.vmax)
Low(c, v) == NMax(NSub(v, c.eps), c.vmin)
Slope(t0, v0, t, v) == NDiv(NSub(v, v0), NSub(t, t0))
On(t0, v0, s, t) == NAdd(v0, NMul(s, NSub(t, t0)))     \* value at t of the line of slope s
Open(c, t0, v0, t, v, out) == [n |-> 2, t0 |-> t0, v0 |-> v0, T |-> t, out |-> out,
                               hi |-> Slope(t0, v0, t, Up(c, v)), lo |-> Slope(t0, v0, t, Low(c, v))]
(* a line of the cone passes between the limits of the new point            *)
MayFit(c, s, t, v) == /\ ~NLt(On(s.t0, s.v0, s.hi, t), Low(c, v))
                      /\ ~NLt(Up(c, v), On(s.t0, s.v0, s.lo, t))
SureFit(c, s, t, v) == /\ NLt(Low(c, v), On(s.t0, s.v0, s.hi, t))
                       /\ NLt(On(s.t0, s.v0, s.lo, t), Up(c, v))
First(c, s, t, v) == [s EXCEPT !.n = 1, !.t0 = t, !.v0 = v]
Fit(c, s, t, v) == [s EXCEPT !.T = t, !.hi = NMin(s.hi, Slope(s.t0, s.v0, t, Up(c, v))),
                                      !.lo = NMax(s.lo, Slope(s.t0, s.v0, t, Low(c, v)))]
Mid(s) == On(s.t0, s.v0, NDiv(NAdd(s.hi, s.lo), Two), s.T)
Break(c, s, t, v, e) == Open(c, s.T, e, t, v, <<s.t0, s.v0>>)
(* the possible results of add(t, v) in the state s: <<returned, state>>    *)
Steps(c, s, t, v, Ends(_)) ==
   IF s.n = 0 THEN { <<FALSE, First(c, s, t, v)>> }
   ELSE IF s.n = 1 THEN { <<FALSE, Open(c, s.t0, s.v0, t, v, s.out)>> }
   ELSE (IF MayFit(c, s, t, v) THEN { <<FALSE, Fit(c, s, t, v)>> } ELSE {})
        \cup (IF SureFit(c, s, t, v) THEN {} ELSE { <<TRUE, Break(c, s, t, v, e)>> : e \in Ends(Mid(s)) })
(* the line from p to q at the time t                                       *)
Line(p, q, t) == NAdd(p[2], NMul(NDiv(NSub(q[2], p[2]), NSub(q[1], p[1])), NSub(t, p[1])))
=============================================================================
