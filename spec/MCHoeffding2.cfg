SPECIFICATION Spec
CONSTANTS MaxTrains = 7 Values = {0, 1, 2} MaxSplits = 2
INVARIANTS ManySame Counted Sane
CHECK_DEADLOCK FALSE
