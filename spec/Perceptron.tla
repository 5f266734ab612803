---------------------------- MODULE Perceptron ----------------------------
(* Multi-layer perceptron (src/perceptron.hpp).  sz: sizes of the layers.   *)
(* Weights: w[l][j] for layer l in 2..L and neuron j is the sequence of its *)
(* input weights, the bias last.  Act / Der: activation and its derivative  *)
(* as a function of the output.                                             *)
EXTENDS Integers, Sequences, TLC      \* TLCEval: evaluate once
CONSTANTS NAdd(_, _), NSub(_, _), NMul(_, _), NDiv(_, _), NInt(_), Act(_), Der(_)
RECURSIVE PSum(_, _)
PSum(F(_), n) == IF n = 0 THEN NInt(0) ELSE NAdd(PSum(F, n - 1), F(n))
(* ---- layout ------------------------------------------------------------ *)
RECURSIVE Base(_, _)
Base(sz, ly) == IF ly <= 2 THEN 0 ELSE Base(sz, ly - 1) + (sz[ly - 2] + 1) * sz[ly - 1]
Count(sz) == Base(sz, Len(sz) + 1)
Unflat(sz, f) == TLCEval([ly \in 2..Len(sz) |-> [j \in 1..sz[ly] |-> [i \in 1..sz[ly-1]+1 |-> f[Base(sz, ly) + (j - 1) * (sz[ly-1] + 1) + i]]]])
IndexOf(sz, ly, j, i) == Base(sz, ly) + (j - 1) * (sz[ly-1] + 1) + i
WithNeuron(sz, f, ly, j, ws) == [k \in 1..Len(f) |-> LET o == k - IndexOf(sz, ly, j, 0) IN IF o \in 1..sz[ly-1]+1 THEN ws[o] ELSE f[k]]
WithLayer(sz, f, ly, ws) == [k \in 1..Len(f) |-> LET o == k - Base(sz, ly) IN IF o \in 1..(sz[ly-1]+1)*sz[ly] THEN ws[o] ELSE f[k]]
(* ---- feed forward: outputs of all layers ------------------------------- *)
Layer(ws, ins) == [j \in DOMAIN ws |-> Act(NAdd(PSum(LAMBDA i : NMul(ws[j][i], ins[i]), Len(ins)), ws[j][Len(ins) + 1]))]
RECURSIVE Outs(_, _, _, _)
Outs(sz, w, x, ly) == IF ly = 1 THEN <<x>> ELSE LET o == TLCEval(Outs(sz, w, x, ly - 1)) IN Append(o, TLCEval(Layer(w[ly], o[ly - 1])))
Feed(sz, w, x) == TLCEval(Outs(sz, w, x, Len(sz)))
(* ---- back propagation -------------------------------------------------- *)
LossSum(out, t) == PSum(LAMBDA i : LET e == NSub(out[i], t[i]) IN NMul(e, e), Len(out))
MeanLoss(out, t) == NDiv(LossSum(out, t), NInt(Len(out)))
(* derivative of half the loss in the weighted sum of every neuron          *)
RECURSIVE Delta(_, _, _, _, _)
Delta(sz, w, o, t, ly) ==
   IF ly = Len(sz) THEN [j \in 1..sz[ly] |-> NMul(Der(o[ly][j]), NSub(o[ly][j], t[j]))]
   ELSE LET up == TLCEval(Delta(sz, w, o, t, ly + 1))
        IN [j \in 1..sz[ly] |-> NMul(Der(o[ly][j]), PSum(LAMBDA k : NMul(up[k], w[ly+1][k][j]), sz[ly+1]))]
Grad(sz, w, x, t) ==
   LET o == Feed(sz, w, x)
   IN [ly \in 2..Len(sz) |-> LET d == TLCEval(Delta(sz, w, o, t, ly))
                             IN [j \in 1..sz[ly] |-> [i \in 1..sz[ly-1]+1 |-> IF i <= sz[ly-1] THEN NMul(d[j], o[ly-1][i]) ELSE d[j]]]]
Step(sz, w, x, t, rate) ==
   LET g == TLCEval(Grad(sz, w, x, t))
   IN [ly \in 2..Len(sz) |-> [j \in 1..sz[ly] |-> [i \in 1..sz[ly-1]+1 |-> NSub(w[ly][j][i], NMul(rate, g[ly][j][i]))]]]
=============================================================================
