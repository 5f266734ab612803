---------------------------- MODULE MCPerceptron ----------------------------
(* The gradient of the specification against automatic differentiation:     *)
(* the loss is evaluated in dual numbers <<value, derivative>> (pairs of    *)
(* rationals), each weight in turn being the variable.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Shapes, Ws, Xs, Kind       \* Kind: "id" y = x, "inv" y = -1/(x + 3)
Q == INSTANCE Rat
MyShapes == {<<1,1>>, <<2,1>>, <<1,2>>, <<1,1,1>>, <<1,1,1,1>>}
MyShapes3 == {<<1,1>>, <<2,1>>, <<1,2>>, <<1,1,1>>}
MyShapes2 == {<<1,2,1>>, <<2,1,2>>, <<1,1,2>>, <<2,2>>}
VARIABLES sz, flat, x, t
vars == <<sz, flat, x, t>>
QInt(n) == Q!R(n)
QAct(v) == IF Kind = "id" THEN v ELSE Q!RDiv(Q!R(-1), Q!RAdd(v, Q!R(3)))
QDer(y) == IF Kind = "id" THEN Q!R(1) ELSE Q!RMul(y, y)
P == INSTANCE Perceptron WITH NAdd <- Q!RAdd, NSub <- Q!RSub, NMul <- Q!RMul, NDiv <- Q!RDiv, NInt <- QInt, Act <- QAct, Der <- QDer
(* dual numbers                                                             *)
DuAdd(a, b) == <<Q!RAdd(a[1], b[1]), Q!RAdd(a[2], b[2])>>
DuSub(a, b) == <<Q!RSub(a[1], b[1]), Q!RSub(a[2], b[2])>>
DuMul(a, b) == <<Q!RMul(a[1], b[1]), Q!RAdd(Q!RMul(a[1], b[2]), Q!RMul(a[2], b[1]))>>
DuDiv(a, b) == <<Q!RDiv(a[1], b[1]), Q!RDiv(Q!RSub(Q!RMul(a[2], b[1]), Q!RMul(a[1], b[2])), Q!RMul(b[1], b[1]))>>
DuInt(n) == <<Q!R(n), Q!R(0)>>
DuAct(v) == IF Kind = "id" THEN v ELSE DuDiv(DuInt(-1), DuAdd(v, DuInt(3)))
DuDer(y) == y
D == INSTANCE Perceptron WITH NAdd <- DuAdd, NSub <- DuSub, NMul <- DuMul, NDiv <- DuDiv, NInt <- DuInt, Act <- DuAct, Der <- DuDer
Lift(s) == [i \in DOMAIN s |-> <<s[i], Q!R(0)>>]
Vary(s, k) == [i \in DOMAIN s |-> <<s[i], Q!R(IF i = k THEN 1 ELSE 0)>>]
Loss(k) == LET o == D!Feed(sz, D!Unflat(sz, Vary(flat, k)), Lift(x)) IN D!LossSum(o[Len(sz)], Lift(t))
Init == /\ sz \in Shapes
        /\ flat = << >> /\ x = << >> /\ t = << >>
Weigh == /\ Len(flat) < P!Count(sz) /\ \E w \in Ws : flat' = Append(flat, QInt(w))
         /\ UNCHANGED <<sz, x, t>>
Input == /\ Len(flat) = P!Count(sz) /\ Len(x) < sz[1] /\ \E v \in Xs : x' = Append(x, QInt(v))
         /\ UNCHANGED <<sz, flat, t>>
Target == /\ Len(x) = sz[1] /\ Len(t) < sz[Len(sz)] /\ \E v \in Xs : t' = Append(t, QInt(v))
          /\ UNCHANGED <<sz, flat, x>>
Spec == Init /\ [][Weigh \/ Input \/ Target]_vars
Ready == Len(t) = sz[Len(sz)]
w == P!Unflat(sz, flat)
(* C18: the gradient is the derivative of half the summed squared error     *)
GradientIsDerivative ==
   Ready => LET g == P!Grad(sz, w, x, t) IN
      \A ly \in 2..Len(sz), j \in 1..10, i \in 1..10 :
         (j <= sz[ly] /\ i <= sz[ly-1] + 1) => Q!RMul(Q!R(2), g[ly][j][i]) = Loss(P!IndexOf(sz, ly, j, i))[2]
(* C17: the layout is a bijection between positions and weights             *)
Layout == LET S == {<<ly, j, i>> \in (2..Len(sz)) \X (1..4) \X (1..5) : j <= sz[ly] /\ i <= sz[ly-1] + 1}
          IN /\ Cardinality({P!IndexOf(sz, p[1], p[2], p[3]) : p \in S}) = Cardinality(S)
             /\ {P!IndexOf(sz, p[1], p[2], p[3]) : p \in S} = 1..P!Count(sz)
(* a step against the gradient of a linear network does not increase the    *)
(* loss when the rate is small enough (here: the rate 0 changes nothing)    *)
ZeroRate == Ready => P!Step(sz, w, x, t, Q!R(0)) = w
=============================================================================
