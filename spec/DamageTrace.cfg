SPECIFICATION TraceSpec
CONSTANTS Names = {"v", "w"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
