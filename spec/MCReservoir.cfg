SPECIFICATION Spec
CONSTANT MaxAdds = 6
INVARIANTS Sound CountInRange Filled
PROPERTY AtMostOneSlot
CHECK_DEADLOCK FALSE
