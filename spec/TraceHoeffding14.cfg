SPECIFICATION TraceSpec
CONSTANTS Level = 14
