SPECIFICATION Spec
CONSTANTS MaxAdds = 6 Ks = {1, 2, 3}
INVARIANTS UniformInclusion UniformSlots NewestKept Bias
CHECK_DEADLOCK FALSE
