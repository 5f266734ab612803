SPECIFICATION TraceSpec
CONSTANTS Configs = {} Level = 4
INVARIANT Consistent
