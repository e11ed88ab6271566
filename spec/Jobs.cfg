SPECIFICATION Spec
CONSTANTS MaxJobs = 3 MaxLen = 7 Vars <- TwoVars
INVARIANTS TypeOK OneForeground NoneLeftWaiting VarsFromEnded
PROPERTY Applied
VIEW View
CHECK_DEADLOCK FALSE
