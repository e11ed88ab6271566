SPECIFICATION Spec
CONSTANTS Vars = {"r", "s"} MaxRows = 3 MaxLen = 3 Rich = FALSE
INVARIANT FilesOK
PROPERTIES OthersUnchanged Protected AppendKeeps
VIEW View
CHECK_DEADLOCK FALSE
