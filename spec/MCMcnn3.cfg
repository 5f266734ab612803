SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NInt <- MInt Sds <- MSds Trunc <- MId Exact <- MExact NFloor <- RTrunc
 Max = 3 Err = 1 Clean = 2 Points = {0,2,5} Labels = {1,2} MaxTrains = 5 Perf = 50
INVARIANTS Bounded Labelled Budget Timely BulkSame
PROPERTY RefusedOnlyFull
CHECK_DEADLOCK FALSE
