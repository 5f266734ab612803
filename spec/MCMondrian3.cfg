SPECIFICATION Spec
CONSTANTS NLt <- MLt Trees = 1 Dims = 2 MaxX = 1 NL = 1 Life = 2 Pool = 5 MaxTrains = 5 Fresh = FALSE
INVARIANTS WellFormed Pooled OddSizes UpToDate
PROPERTIES Kept Told
CHECK_DEADLOCK FALSE
