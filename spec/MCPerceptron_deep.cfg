SPECIFICATION Spec
CONSTANTS Shapes <- MyShapes2 Ws = {0,1} Xs = {1,2} Kind = "id"
INVARIANTS GradientIsDerivative Layout ZeroRate
CHECK_DEADLOCK FALSE
