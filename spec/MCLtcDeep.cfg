SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NMin <- RMin NMax <- RMax Two <- MTwo Zero <- MZero
 Eps = 2 Lowest = 4 VMax = 4 Vals <- MVals3 Gaps = {1,2} MaxAdds = 6 IntMode = TRUE
INVARIANTS Within ConeExact InRange Increasing
CHECK_DEADLOCK FALSE
