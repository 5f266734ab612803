SPECIFICATION TraceSpec
CONSTANTS Configs = {} Level = 2
INVARIANT Consistent
