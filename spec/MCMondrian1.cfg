SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 1 MaxX = 3 NL = 2 Life = 2 Pool = 8 MaxTrains = 4 Fresh = TRUE
INVARIANTS WellFormed Pooled OddSizes UpToDate
PROPERTIES Kept Told
CHECK_DEADLOCK FALSE
