SPECIFICATION Spec
CONSTANTS MaxAdds = 5 MaxK = 3
INVARIANTS SuccessorAhead Ordered
CHECK_DEADLOCK FALSE
