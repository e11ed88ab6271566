CONSTANTS
  MaxSteps = 4
  MaxRows = 4
  Cap = 1
  Naive = FALSE
SPECIFICATION Spec
INVARIANTS InOrder Complete OnlyReported
PROPERTIES Termination
