SPECIFICATION TraceSpec
INVARIANTS SuccessorAhead Ordered
