SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 3 Dims = 1 MaxX = 1 NL = 1 Life = 1 Pool = 2 MaxTrains = 4 Fresh = FALSE
INVARIANTS WellFormed Pooled OddSizes UpToDate
PROPERTIES Kept Told
CHECK_DEADLOCK FALSE
