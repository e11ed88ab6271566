SPECIFICATION SpecMC
CONSTANTS Procs = {1, 2} Names = {"v", "w"} Vars = {"x"} MaxOps = 6
INVARIANTS TypeOK Exclusive HeldByLiving TornIsGone
PROPERTIES SavedByOwner RefusedKeeps
CHECK_DEADLOCK FALSE
