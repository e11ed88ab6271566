SPECIFICATION Spec
CONSTANTS
  Family = "S02"
  MaxLen = 3
INVARIANTS FirstLaw SecondLaw
CHECK_DEADLOCK FALSE
