SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NInt <- MInt Sds <- MSds Trunc <- MId Exact <- MExact NFloor <- RTrunc
 Max = 1 Err = 1 Clean = 0 Points = {0,4} Labels = {1,2} MaxTrains = 6 Perf = 50
INVARIANTS Bounded Labelled Budget Timely BulkSame
PROPERTY RefusedOnlyFull
CHECK_DEADLOCK FALSE
