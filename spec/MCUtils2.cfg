SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxVal = 3 MaxPerm = 6
INVARIANTS PickLaw ShuffleLaw
CHECK_DEADLOCK FALSE
