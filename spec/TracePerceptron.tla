-------------------------- MODULE TracePerceptron --------------------------
EXTENDS Perceptron, Dbl, TraceBase
CONSTANT Level                 \* 17 or 18
VARIABLES cfg, flat, last      \* flat: the weights; last: <<weights, input>> of the last feed_forward
mvars == <<cfg, flat, last>>
vars == <<cfg, flat, last, tid, l>>
One == DInt(1)
TAct(x) == CASE cfg.act = "sig" -> DDiv(One, DAdd(One, DExp(DNeg(x))))
             [] cfg.act = "id" -> x
             [] cfg.act = "relu" -> IF DLt(DInt(0), x) THEN x ELSE DInt(0)
             [] cfg.act = "tanh" -> LET e == DExp(DMul(DInt(-2), x)) IN DDiv(DSub(One, e), DAdd(One, e))
TDer(y) == CASE cfg.act = "sig" -> DMul(y, DSub(One, y))
             [] cfg.act = "id" -> One
             [] cfg.act = "relu" -> IF DLt(DInt(0), y) THEN One ELSE DInt(0)
             [] cfg.act = "tanh" -> DSub(One, DMul(y, y))
sz == cfg.sz
TraceInit == TraceStart /\ cfg = T.cfg /\ flat = << >> /\ last = << >>
(* the weights after the call are want (judged at level lev)                *)
Becomes(want, lev) == flat' = Ev.w /\ (Level = lev => Ev.w = want)
New == /\ Is("new") /\ Len(Ev.w) = Count(sz) /\ flat' = Ev.w /\ UNCHANGED <<cfg, last>>
       /\ Level = 17 => \A i \in 1..Len(Ev.w) : Ev.w[i] \in {Ev.draws[k] : k \in 1..Len(Ev.draws)}
Set1 == Is("set1") /\ Becomes(WithNeuron(sz, flat, Ev.layer, Ev.neuron, Ev.ws), 17) /\ UNCHANGED <<cfg, last>>
Set2 == Is("set2") /\ Becomes(WithLayer(sz, flat, Ev.layer, Ev.ws), 17) /\ UNCHANGED <<cfg, last>>
Set3 == Is("set3") /\ Becomes(Ev.ws, 17) /\ UNCHANGED <<cfg, last>>
Feed1 == /\ Is("feed") /\ Becomes(flat, 17) /\ UNCHANGED cfg
         /\ last' = <<Ev.w, Ev.x>>
         /\ Level = 17 => LET o == TLCEval(Feed(sz, Unflat(sz, flat), Ev.x)[Len(sz)])
                          IN Len(Ev.out) = Len(o) /\ \A i \in 1..Len(o) : DClose(Ev.out[i], o[i])
Back == /\ Is("back") /\ flat' = Ev.w /\ UNCHANGED cfg /\ last' = << >>
        /\ Len(last) = 2 /\ last[1] = flat
        /\ Level = 18 => LET w == Unflat(sz, flat)
                             o == TLCEval(Feed(sz, w, last[2]))
                             s == TLCEval(Step(sz, w, last[2], Ev.t, cfg.rate))
                             v == Unflat(sz, Ev.w)
                         IN /\ DClose(Ev.mse, MeanLoss(o[Len(sz)], Ev.t))
                            /\ \A ly \in 2..Len(sz) : \A j \in 1..sz[ly] : \A i \in 1..sz[ly-1]+1 : DClose(v[ly][j][i], s[ly][j][i])
TraceNext == New \/ Set1 \/ Set2 \/ Set3 \/ Feed1 \/ Back \/ (TraceDone /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
