SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 1 MaxX = 2 NL = 2 Life = 2 Pool = 5 MaxTrains = 4 Ext = 2 Trim = 1 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
