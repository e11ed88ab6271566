CONSTANTS
  MaxSteps = 0
  MaxRows = 0
  Cap = 1
  Naive = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
