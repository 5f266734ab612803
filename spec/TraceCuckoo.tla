---------------------------- MODULE TraceCuckoo ----------------------------
EXTENDS Cuckoo, TraceBase
tvars == <<cfg, cls, bel, tid, l>>
TraceInit == TraceStart /\ InitWith(T.cfg)
ProbeOk == Len(Ev.r) = Len(cfg.el)
(* C02: no false negatives (positive answers are not judged); C03: exact   *)
CONSTANT Level       \* 2, 3 or 4: the property that is checked
NoneMissing == \A M \in bel, e \in Elems : Present(M, e) => Ev.r[e]
TraceProbe == /\ Is("probe") /\ ProbeOk
              /\ IF Level = 2 THEN NoneMissing /\ UNCHANGED cvars ELSE Answers(Ev.r)
TraceAdd == /\ Is("add")
            /\ IF Ev.r THEN AddOk(Ev.e) ELSE AddFail(Ev.e)
            /\ Level = 4 =>
                  /\ Ev.r => \E M \in bel : Feasible(Plus(M, cls[Ev.e]))
                  /\ ~Ev.r => \E M \in bel : ~RoomForSure(M, Ev.e)
(* the same add on n copies of the filter with different random sequences  *)
TraceTry == /\ Is("try")
            /\ LET ok == \A M \in bel : Feasible(Plus(M, cls[Ev.e]))
                   sure == \A M \in bel : RoomForSure(M, Ev.e)
                   possible == \E M \in bel : Feasible(Plus(M, cls[Ev.e]))
               IN /\ ok => Ev.won * 10 >= Ev.n * 9
                  /\ sure => Ev.won = Ev.n /\ Ev.fixed = Ev.nf
                  /\ ~possible => Ev.won = 0 /\ Ev.fixed = 0
            /\ UNCHANGED cvars
TraceRemove == Is("remove") /\ Remove(Ev.e)
TraceClear == Is("clear") /\ Clear
TraceCount == Is("count") /\ Level # 2 /\ Counted(Ev.n)
TraceNext == TraceProbe \/ TraceAdd \/ TraceTry \/ TraceRemove \/ TraceClear \/ TraceCount
             \/ (TraceDone /\ UNCHANGED cvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
