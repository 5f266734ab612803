SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 2 Dims = 1 MaxX = 3 NL = 2 Life = 2 Pool = 6 MaxTrains = 4 Ext = 0 Trim = 3 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
