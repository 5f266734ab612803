------------------------------- MODULE MCLtc -------------------------------
EXTENDS Ltc, Rat
CONSTANTS Eps, Lowest, VMax, Vals, Gaps, MaxAdds, IntMode
VARIABLES s, now, cnt, pts, prev, tend
vars == <<s, now, cnt, pts, prev, tend>>
MTwo == R(2)
MZero == R(0)
VMin == -Lowest
MVals == {-2, 0, 1, 3}
MVals2 == {-1, 0, 2}
MVals3 == {-4, -1, 0, 2, 4}
c == [eps |-> R(Eps), vmin |-> R(VMin), vmax |-> R(VMax)]
Ends(m) == IF IntMode THEN {R(RTrunc(m))} ELSE {m}
Init == s = Empty /\ now = 0 /\ cnt = 0 /\ pts = << >> /\ prev = << >> /\ tend = -1
(* prev: the last complete segment <<start, end, its points>>               *)
Point(g, v) ==
   /\ cnt < MaxAdds /\ cnt' = cnt + 1 /\ now' = now + g
   /\ \E x \in Steps(c, s, R(now'), R(v), Ends) :
         /\ s' = x[2]
         /\ IF x[1] THEN /\ prev' = << <<s.t0, s.v0>>, <<s'.t0, s'.v0>>, pts >>
                         /\ pts' = << pts[Len(pts)], <<R(now'), R(v)>> >>
                         /\ tend' = s'.out[1]
            ELSE pts' = Append(pts, <<R(now'), R(v)>>) /\ UNCHANGED <<prev, tend>>

DoPoint == \E g \in Gaps, v \in Vals : Point(g, v)
Spec == Init /\ [][DoPoint]_vars
Bound == IF IntMode THEN R(Eps + 1) ELSE R(Eps)
Near(a, b) == RLe(RSub(a, b), Bound) /\ RLe(RSub(b, a), Bound)
(* C10 *)
Within == prev # << >> => \A i \in 1..Len(prev[3]) : Near(Line(prev[1], prev[2], prev[3][i][1]), prev[3][i][2])
(* C11: the cone is the exact set of admissible slopes                      *)
ConeExact == s.n = 2 => /\ RLe(s.lo, s.hi)
                        /\ \A i \in 1..Len(pts) : RLt(s.t0, pts[i][1]) =>
                              /\ RLe(On(s.t0, s.v0, s.hi, pts[i][1]), Up(c, pts[i][2]))
                              /\ RLe(Low(c, pts[i][2]), On(s.t0, s.v0, s.lo, pts[i][1]))
InRange == s.n > 0 => RLe(R(VMin), s.v0) /\ RLe(s.v0, R(VMax))
Increasing == s.n = 2 => RLt(s.t0, s.T) /\ (s.out # << >> => RLt(s.out[1], s.t0))
=============================================================================
