SPECIFICATION TraceSpec
CONSTANTS Configs = {} Level = 3
INVARIANT Consistent
