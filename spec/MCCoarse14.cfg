SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 1 MaxX = 3 NL = 1 Life = 2 Pool = 7 MaxTrains = 6 Ext = 7 Trim = 0 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
CHECK_DEADLOCK FALSE
