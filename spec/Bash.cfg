CONSTANTS
  MaxSteps = 3
  MaxRows = 3
  Cap = 1
  Naive = FALSE
SPECIFICATION Spec
INVARIANTS InOrder Complete OnlyReported
PROPERTIES Termination
