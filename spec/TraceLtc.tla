------------------------------ MODULE TraceLtc ------------------------------
EXTENDS Ltc, Dbl, TraceBase
CONSTANT Level                  \* 10 or 11: the property that is checked
VARIABLES cfg, bel, last, pts   \* bel: possible states; last: last transmitted point; pts: the points since
lvars == <<cfg, bel, last, pts>>
vars == <<cfg, bel, last, pts, tid, l>>
TTwo == DInt(2)
TZero == DInt(0)
One == DInt(1)
Ends(m) == IF ~cfg.int THEN {m}
           ELSE LET f == DFloor(m) IN {DInt(i) : i \in {j \in f-1..f+2 : DLePoss(DAbs(DSub(DInt(j), m)), One)}}
TraceInit == TraceStart /\ cfg = T.cfg /\ bel = {Empty} /\ last = << >> /\ pts = << >>
SamePoint(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : DClose(p[i], q[i])
Bound == IF cfg.int THEN DAdd(cfg.eps, One) ELSE cfg.eps
Covered(p, q) == \A i \in 1..Len(pts) :
   (DLe(p[1], pts[i][1]) /\ DLe(pts[i][1], q[1])) => DLePoss(DAbs(DSub(Line(p, q, pts[i][1]), pts[i][2])), Bound)
AddOk10 == /\ UNCHANGED <<cfg, bel>>
           /\ IF Ev.r THEN /\ last # << >> => DLt(last[1], Ev.out[1]) /\ Covered(last, Ev.out)
                           /\ last' = Ev.out
                           /\ pts' = SelectSeq(Append(pts, <<Ev.t, Ev.v>>), LAMBDA p : DLe(Ev.out[1], p[1]))
              ELSE pts' = Append(pts, <<Ev.t, Ev.v>>) /\ UNCHANGED last
AddOk11 == /\ bel' = {x[2] : x \in {y \in UNION {Steps(cfg, s, Ev.t, Ev.v, Ends) : s \in bel} : y[1] = Ev.r /\ SamePoint(y[2].out, Ev.out)}}
           /\ UNCHANGED <<cfg, last, pts>>
TraceAdd == Is("add") /\ IF Level = 10 THEN AddOk10 ELSE AddOk11
TraceNext == TraceAdd \/ (TraceDone /\ UNCHANGED lvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consistent == bel # {}
=============================================================================
