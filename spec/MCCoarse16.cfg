SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 2 Dims = 1 MaxX = 2 NL = 2 Life = 2 Pool = 9 MaxTrains = 3 Ext = 7 Trim = 3 Deep = 0 Most = 5
INVARIANTS WellFormed Pooled Bounded
PROPERTIES Frees
CHECK_DEADLOCK FALSE
