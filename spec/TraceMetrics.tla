---------------------------- MODULE TraceMetrics ----------------------------
(* Histories over several instances of the metrics: s[i] is instance i.     *)
EXTENDS Metrics, Dbl, TraceBase
VARIABLES cfg, s, all
mvars == <<cfg, s, all>>
vars == <<cfg, s, all, tid, l>>
None == [none |-> TRUE]
Start == IF T.cfg.kind = "error" THEN ErrNew ELSE IF T.cfg.kind = "kappa" THEN KapNew(T.cfg.nl) ELSE None
TraceInit == TraceStart /\ cfg = T.cfg /\ s = [i \in 1..T.cfg.n |-> None] /\ all = T.cfg.all
Fresh == /\ (Is("new") \/ Is("reset")) /\ UNCHANGED cfg
         /\ IF cfg.kind = "res" THEN all' = all + 1 /\ s' = [s EXCEPT ![Ev.i] = [number |-> all + 1]]
            ELSE UNCHANGED all /\ s' = [s EXCEPT ![Ev.i] = Start]
Update == /\ Is("update") /\ UNCHANGED <<cfg, all>>
          /\ s' = CASE cfg.kind = "error" -> [s EXCEPT ![Ev.i] = ErrUpdate(@, Ev.t, Ev.p)]
                    [] cfg.kind = "kappa" -> [s EXCEPT ![Ev.i] = KapUpdate(@, Ev.t, Ev.p)]
                    [] OTHER -> s
Updates == /\ Is("updates") /\ UNCHANGED <<cfg, all>>
           /\ s' = CASE cfg.kind = "error" -> [s EXCEPT ![Ev.i] = ErrMany(@, Ev.t, Ev.p, Ev.n)]
                     [] cfg.kind = "kappa" -> [s EXCEPT ![Ev.i] = KapMany(@, Ev.t, Ev.p, Ev.n)]
                     [] OTHER -> s
Increase == /\ Is("increase") /\ UNCHANGED <<cfg, all>>
            /\ s' = CASE cfg.kind = "error" -> [s EXCEPT ![Ev.i] = ErrIncrease(@, Ev.c)]
                      [] cfg.kind = "kappa" -> [s EXCEPT ![Ev.i] = KapIncrease(@, Ev.c)]
                      [] OTHER -> s
Assign == Is("assign") /\ UNCHANGED <<cfg, all>> /\ s' = [s EXCEPT ![Ev.i] = s[Ev.j]]
Same(obs, want) == DIsNaN(want) \/ DIsInf(want) \/ DClose(obs, want)
Want(i, inv, size) == CASE cfg.kind = "error" -> ErrScore(s[i], cfg.ratio, inv, size)
                        [] cfg.kind = "kappa" -> KapScore(s[i], cfg.ratio, inv, size)
                        [] cfg.kind = "res" -> ResScore(all, s[i].number, size)
                        [] OTHER -> DInt(0)
(* the counts are divided by zero: nothing to compare                       *)
Empty(i) == \/ cfg.kind = "error" /\ s[i].count = 0
            \/ cfg.kind = "kappa" /\ (DEq(KapTotal(s[i]), DInt(0)) \/ DNear(Pe(s[i]), DInt(1), 12))
Score == /\ Is("score") /\ UNCHANGED mvars
         /\ Empty(Ev.i) \/ (/\ Same(Ev.s, Want(Ev.i, FALSE, Ev.size))
                            /\ Same(Ev.inv, Want(Ev.i, TRUE, Ev.size))
                            /\ cfg.kind = "kappa" => Same(Ev.kappa, Kappa(s[Ev.i])))
         /\ Ev.ratio = cfg.ratio
TraceNext == Fresh \/ Update \/ Updates \/ Increase \/ Assign \/ Score \/ (TraceDone /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
