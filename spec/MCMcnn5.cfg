SPECIFICATION Spec
CONSTANTS NAdd <- RAdd NSub <- RSub NMul <- RMul NDiv <- RDiv NLt <- RLt NInt <- MInt Sds <- MSds Trunc <- MId Exact <- MExact NFloor <- RTrunc
 Max = 3 Err = 2 Clean = 0 Points = {0,2,5} Labels = {1,2,3} MaxTrains = 6 Perf = 50
INVARIANTS Bounded Labelled Budget Timely
PROPERTY RefusedOnlyFull
CHECK_DEADLOCK FALSE
