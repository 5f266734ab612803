SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 1 MaxX = 3 NL = 2 Life = 2 Pool = 9 MaxTrains = 5 Ext = 5 Trim = 0 Deep = 2 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
