SPECIFICATION TraceSpec
CONSTANTS Procs = {1, 2, 3} Names = {"v", "w", "a b"} Vars = {"x", "y", "s"}
INVARIANTS TypeOK Exclusive HeldByLiving TornIsGone
CHECK_DEADLOCK FALSE
