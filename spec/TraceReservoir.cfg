SPECIFICATION TraceSpec
INVARIANTS CountInRange Filled
