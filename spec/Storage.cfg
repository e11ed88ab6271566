SPECIFICATION Spec
INVARIANTS Done Safe
PROPERTIES CurrentUnchanged Ends
CHECK_DEADLOCK FALSE
