CONSTANTS
  MaxSteps = 1
  MaxRows = 4
  Cap = 1
  Naive = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Complete OnlyReported
PROPERTIES Termination
