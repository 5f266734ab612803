SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NInt <- MInt
 MaxOps = 4 NLab = 3
INVARIANTS History Ranges Numbers
PROPERTY Latest
CHECK_DEADLOCK FALSE
