SPECIFICATION Spec
CONSTANTS MaxAdds = 4 MaxK = 2
INVARIANTS SuccessorAhead Ordered
CHECK_DEADLOCK FALSE
