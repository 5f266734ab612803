SPECIFICATION TraceSpec
CONSTANTS NLt <- DLt Level = 21
