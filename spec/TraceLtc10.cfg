SPECIFICATION TraceSpec
CONSTANTS NAdd <- DAdd NSub <- DSub NMul <- DMul NDiv <- DDiv NLt <- DLtSure NMin <- DMin NMax <- DMax Two <- TTwo Zero <- TZero
 Level = 10
INVARIANT Consistent
