SPECIFICATION Spec
CONSTANTS Shapes <- MyShapes3 Ws = {0,1} Xs = {1,2} Kind = "inv"
INVARIANTS GradientIsDerivative Layout ZeroRate
CHECK_DEADLOCK FALSE
