SPECIFICATION Spec
CONSTANTS Shapes <- MyShapes Ws = {0,1,2} Xs = {1,2} Kind = "id"
INVARIANTS GradientIsDerivative Layout ZeroRate
CHECK_DEADLOCK FALSE
