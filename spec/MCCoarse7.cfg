SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 2 Dims = 1 MaxX = 2 NL = 1 Life = 2 Pool = 9 MaxTrains = 5 Ext = 2 Trim = 1 Deep = 0 Most = 4
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
