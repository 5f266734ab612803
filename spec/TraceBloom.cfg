SPECIFICATION TraceSpec
CONSTANT Configs = {}
INVARIANTS TypeOK NoFalseNegative
