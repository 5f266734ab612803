SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 1 MaxX = 3 NL = 1 Life = 2 Pool = 5 MaxTrains = 4 Ext = 6 Trim = 3 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees
CHECK_DEADLOCK FALSE
