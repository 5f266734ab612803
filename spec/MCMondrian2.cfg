SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 2 Dims = 1 MaxX = 2 NL = 1 Life = 2 Pool = 7 MaxTrains = 4 Fresh = FALSE
INVARIANTS WellFormed Pooled OddSizes UpToDate
PROPERTIES Kept Told
CHECK_DEADLOCK FALSE
