SPECIFICATION TraceSpec
CONSTANTS Level = 15
