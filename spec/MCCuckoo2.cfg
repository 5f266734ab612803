SPECIFICATION Spec
CONSTANTS B = 4  BS = 2  El <- MCEl  Kicks = 3  MaxStored = 2
INVARIANTS Content NoFalseNegative Located
