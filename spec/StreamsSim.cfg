SPECIFICATION Spec
CONSTANTS Vars = {"r", "s", "t"} MaxRows = 6 MaxLen = 10 Rich = TRUE
INVARIANT FilesOK
PROPERTIES OthersUnchanged Protected AppendKeeps
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
