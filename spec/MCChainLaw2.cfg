SPECIFICATION Spec
CONSTANTS MaxAdds = 4 Ks = {3}
INVARIANTS UniformInclusion UniformSlots UniformSuccessor
CHECK_DEADLOCK FALSE
