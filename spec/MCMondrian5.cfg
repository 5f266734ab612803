SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 2 MaxX = 2 NL = 2 Life = 2 Pool = 9 MaxTrains = 4 Fresh = TRUE
INVARIANTS WellFormed Pooled OddSizes UpToDate
PROPERTIES Kept Told
CHECK_DEADLOCK FALSE
