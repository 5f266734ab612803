----------------------------- MODULE TraceMcnn -----------------------------
EXTENDS Mcnn, Dbl, TraceBase
CONSTANT Level                 \* 12 or 13: the property that is checked
VARIABLES cfg, bel, now        \* bel: the possible sequences of clusters
mvars == <<cfg, bel, now>>
vars == <<cfg, bel, now, tid, l>>
TLt(a, b) == DLt(a, b) /\ ~DNear(a, b, cfg.tol)
(* integer features are truncated                                           *)
TTrunc(x) == IF cfg.int THEN DInt(DTrunc(x)) ELSE x
TExact(x) == LET y == DMul(x, DInt(64)) IN DEq(DFloat(y), y) /\ DLt(DAbs(x), DInt(8192)) /\ DEq(y, DInt(DFloor(y)))
Eps6 == DDec(1, -6)
TSds(v) == LET s == DSqrt(DMax(v, DInt(0)))
           IN IF DLt(v, DDec(1, -9)) THEN {DInt(0)} ELSE IF cfg.int /\ DNear(s, DInt(DFloor(DAdd(s, DRat(1, 2)))), 6) THEN {DSub(s, Eps6), DInt(DFloor(DAdd(s, DRat(1, 2)))), DAdd(s, Eps6)} ELSE {s}
TraceInit == TraceStart /\ cfg = T.cfg /\ bel = {<< >>} /\ now = -1
Agree(cs) == /\ Level = 13 => Len(cs) = Ev.count
             /\ Level = 12 => \A i \in 1..Len(Ev.probes) : Ev.probes[i][2] \in Predictions(cfg, cs, Ev.probes[i][1])
(* too many ties: the rest of the history is not judged                     *)
Lost == [i \in 1..cfg.max+1 |-> << >>]
Cut(S) == IF Cardinality(S) > 40 THEN {Lost} ELSE S
GaveUp == \E b \in bel : Len(b) > cfg.max
TraceTrain == /\ Is("train") /\ ~GaveUp /\ now' = now + 1 /\ UNCHANGED cfg
              /\ bel' = Cut({Canon(y[2]) : y \in {z \in UNION {Train(cfg, cs, Ev.x, Ev.label, now') : cs \in bel} : (Level = 13 => z[1] = Ev.r) /\ Agree(z[2])}})
(* n points without an observation in between                               *)
TraceMany == /\ Is("many") /\ ~GaveUp /\ now' = now + Ev.n /\ UNCHANGED cfg
             /\ LET all == IF Ev.n > 400 THEN {IF BulkOk(cfg, cs, Ev.x, Ev.label) THEN Bulk(cfg, cs, Ev.x, Ev.n, now) ELSE Lost : cs \in bel}
                           ELSE TrainMany(cfg, bel, Ev.x, Ev.label, Ev.n, now)
                IN bel' = IF Lost \in all \/ Cardinality(all) > 12 THEN {Lost} ELSE Cut({Canon(b) : b \in {z \in all : Agree(z)}})
             /\ Level = 13 => Ev.r \/ cfg.clean = 1
TracePredict == /\ Is("predict") /\ ~GaveUp /\ UNCHANGED <<cfg, now>>
                /\ bel' = {cs \in bel : Agree(cs)}
TraceParams == Is("params") /\ Ev.dflt /\ Ev.err = cfg.err /\ Ev.perf = DTrunc(cfg.perf) /\ UNCHANGED mvars
TraceSkip == GaveUp /\ (Is("train") \/ Is("predict") \/ Is("many")) /\ UNCHANGED mvars /\ PrintT("UNJUDGED")
TraceNext == TraceSkip \/ TraceTrain \/ TraceMany \/ TracePredict \/ TraceParams \/ (TraceDone /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consistent == bel # {}
=============================================================================
