SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 2 Dims = 1 MaxX = 2 NL = 1 Life = 2 Pool = 5 MaxTrains = 4 Ext = 3 Trim = 3 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
