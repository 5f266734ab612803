SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NMin <- RMin NMax <- RMax Two <- MTwo Zero <- MZero
 Eps = 0 Lowest = 2 VMax = 2 Vals <- MVals2 Gaps = {1,3} MaxAdds = 5 IntMode = TRUE
INVARIANTS Within ConeExact InRange Increasing
CHECK_DEADLOCK FALSE
