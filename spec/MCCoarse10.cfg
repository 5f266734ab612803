SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 2 Dims = 2 MaxX = 1 NL = 1 Life = 2 Pool = 7 MaxTrains = 4 Ext = 4 Trim = 1 Deep = 3 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
