SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NInt <- MInt Sds <- MSds Trunc <- MId Exact <- MExact NFloor <- RTrunc
 Max = 2 Err = 2 Clean = 1 Points = {0,3} Labels = {1,2,3} MaxTrains = 6 Perf = 40
INVARIANTS Bounded Labelled Budget Timely BulkSame
PROPERTY RefusedOnlyFull
CHECK_DEADLOCK FALSE
