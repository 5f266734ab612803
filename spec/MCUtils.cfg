SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 3 MaxPerm = 5
INVARIANTS PickLaw ShuffleLaw
CHECK_DEADLOCK FALSE
