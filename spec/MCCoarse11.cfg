SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 1 MaxX = 3 NL = 1 Life = 3 Pool = 7 MaxTrains = 6 Ext = 1 Trim = 3 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
