SPECIFICATION Spec
CONSTANTS B = 4  BS = 1  El <- MCEl  Kicks = 4  MaxStored = 3
INVARIANTS Content NoFalseNegative Located
PROPERTY Terminates
