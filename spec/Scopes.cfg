SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxDepth = 3 MaxLen = 4
INVARIANT TypeOK
PROPERTY LeaveRestores
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
