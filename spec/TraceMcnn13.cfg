SPECIFICATION TraceSpec
CONSTANTS Level = 13
 NAdd <- DAdd NSub <- DSub NMul <- DMul NDiv <- DDiv NLt <- TLt NInt <- DInt Sds <- TSds Trunc <- TTrunc Exact <- TExact NFloor <- DFloor
INVARIANT Consistent
