SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 2 MaxX = 2 NL = 1 Life = 1 Pool = 7 MaxTrains = 4 Ext = 6 Trim = 1 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees
CHECK_DEADLOCK FALSE
