SPECIFICATION TraceSpec
CONSTANTS NLt <- DLt Level = 19
