SPECIFICATION Spec
CONSTANTS
  Family = "S01"
  MaxLen = 3
INVARIANTS FirstLaw SecondLaw
CHECK_DEADLOCK FALSE
