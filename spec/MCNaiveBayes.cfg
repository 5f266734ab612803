SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NInt <- MInt
 Values = {0,1,3} Weights = {1,2,5} MaxTrains = 4 Labels = {1,2}
INVARIANTS Equal PointMass Unseen Merged
CHECK_DEADLOCK FALSE
