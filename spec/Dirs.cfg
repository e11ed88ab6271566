SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxStack = 4 Others = TRUE Small = TRUE
VIEW view
INVARIANTS TopIsHere Real Entries
PROPERTIES FailureChangesNothing PushThenBelow CdKeepsBelow PopTakesTop SwapKeepsEntries
CHECK_DEADLOCK FALSE
