SPECIFICATION Spec
CONSTANTS MaxAdds = 5 Ks = {1, 2}
INVARIANTS UniformInclusion UniformSlots UniformSuccessor
CHECK_DEADLOCK FALSE
