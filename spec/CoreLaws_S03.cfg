SPECIFICATION Spec
CONSTANTS
  Family = "S03"
  MaxLen = 3
INVARIANTS FirstLaw SecondLaw
CHECK_DEADLOCK FALSE
