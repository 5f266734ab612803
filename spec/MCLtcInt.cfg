SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NMin <- RMin NMax <- RMax Two <- MTwo Zero <- MZero
 Eps = 1 Lowest = 2 VMax = 3 Vals <- MVals Gaps = {1,2} MaxAdds = 5 IntMode = TRUE
INVARIANTS Within ConeExact InRange Increasing
CHECK_DEADLOCK FALSE
