SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 2 MaxX = 1 NL = 1 Life = 2 Pool = 7 MaxTrains = 5 Ext = 7 Trim = 1 Deep = 0 Most = 0
INVARIANTS WellFormed Pooled Bounded
CHECK_DEADLOCK FALSE
