SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 2 MaxX = 1 NL = 1 Life = 2 Pool = 5 MaxTrains = 5 Ext = 3 Trim = 1 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees Kept
CHECK_DEADLOCK FALSE
