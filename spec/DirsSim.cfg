SPECIFICATION Spec
CONSTANTS MaxLen = 24 MaxStack = 5 Others = TRUE Small = FALSE
INVARIANTS TopIsHere Real Entries
PROPERTIES FailureChangesNothing PushThenBelow CdKeepsBelow PopTakesTop SwapKeepsEntries
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
