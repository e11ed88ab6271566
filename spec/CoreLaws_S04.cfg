SPECIFICATION Spec
CONSTANTS
  Family = "S04"
  MaxLen = 3
INVARIANTS FirstLaw SecondLaw
CHECK_DEADLOCK FALSE
